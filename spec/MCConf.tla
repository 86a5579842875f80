------------------------------- MODULE MCConf -------------------------------
(* C07, C08, C09, C16: all configurations, URL forms and forms of requests. *)
EXTENDS MC

Flags == {"sub", "sec", "red", "ts", "strict", "lts", "lup"} \cup (IF Wide THEN {"asis"} ELSE {})
Urls == {"/a", "/a/", "https:///a", "https:///{p:a|b}/"}
        \cup (IF Wide THEN {"https:///a/", "http://h.com", "https://h.com/", "/b/a", "https:///b/{w}/", "/"} ELSE {})
IsHostURL(u) == u \in {"http://h.com", "https://h.com/"}

\* First the responder, then (when it is wide) what is done to its configuration.
ConfMenu(k, s, hist) ==
    CASE k = 1 ->
        {<<IF IsHostURL(u) THEN [HostOp(u) EXCEPT !.uc = TRUE, !.cfg = SetToSeq(c)] ELSE ResUC(0, u, SetToSeq(c)),
           SetH(1, "GET", "h1"),
           H(1, "c", "GET", "h2")>> : u \in Urls, c \in SUBSET Flags}
      [] k = 2 ->
        {<<>>} \cup (IF Wide THEN {<<SetCfg_(1, c)>> : c \in {<<>>, <<"sub", "red">>, <<"strict", "sec">>}}
                                  \cup {<<[op |-> "SetSub", set |-> "Configuration", i |-> 0, cfg |-> <<"sub", "lts">>]>>,
                                        <<Wrap(0, "/", "WrapPasser", <<"m1">>)>>}
                     ELSE {})

ConfPaths == {"/a", "/a/", "/a//", "//a", "/a/.", "/a/../a", "/a/c", "/a/c/", "/a//c", "/a/x", "/a/x/", "/a/./x"}
             \cup (IF Wide THEN {"/", "/b/a", "/b/a/", "/b//a", "/c", "/c/", "//c", "/b/a/c", "/b/a/x/"} ELSE {})
ConfProbes(s, hist) ==
    LET qs == {[Q(p, "h.com", t) EXCEPT !.query = "q"] : p \in ConfPaths, t \in BOOLEAN}
        raw == [Q("/a%", "h.com", TRUE) EXCEPT !.path = "/a", !.rawpath = "/%61"]
        rest == IF Wide THEN <<Req(raw), Req([raw EXCEPT !.path = "/a/", !.rawpath = "/%61/", !.tls = FALSE]),
                               Req([raw EXCEPT !.path = "//a", !.rawpath = "//%61"])>>
                ELSE <<>>
    IN (LET l == SetToSeq(qs) IN [k \in DOMAIN l |-> Req(l[k])]) \o rest
ConfSetup == <<>>
=============================================================================
