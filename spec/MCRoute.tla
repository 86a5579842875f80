------------------------------ MODULE MCRoute -------------------------------
(* C01, C02, C03: all small trees, in all orders, and all short paths. *)
EXTENDS MC

Bundles ==
    <<<<H(0, "/a", "GET", "h1")>>,
      <<H(0, "/{p:a|b}", "GET", "h2")>>,
      <<H(0, "/{q:[a-c]+}", "GET", "h3")>>,
      <<H(0, "/{w}", "GET", "h4")>>,
      <<H(0, "/a/b", "GET", "h5")>>,
      <<H(0, "/{p:a|b}/b", "GET", "h6")>>,
      <<H(0, "/{q:[a-c]+}/{p:a|b}", "GET", "h7")>>,
      <<H(0, "/{w}/{q:[a-c]+}", "GET", "h8")>>,
      <<H(0, "/a/{w}", "GET", "h9")>>,
      <<Cfg(0, "/", <<"sub">>), H(0, "/", "GET", "h10")>>,
      <<Cfg(0, "/a", <<"sub">>), H(0, "/a", "GET", "h11")>>,
      <<Cfg(0, "/{q:[a-c]+}/", <<"sub">>), H(0, "/{q:[a-c]+}/", "GET", "h12")>>,
      <<Cfg(0, "/{w}", <<"sub">>)>>,
      <<H(0, "http://{s:a|b}.h.com/b", "GET", "h13")>>,
      <<Cfg(0, "http://{w}.h.com", <<"sub">>), H(0, "http://{w}.h.com", "GET", "h14")>>,
      <<H(0, "http://a.h.com/{p:a|b}", "GET", "h15")>>>>

\* The bundles that come in any order, and the ones whose order doesn't matter
\* to each other: siblings with patterns are chosen in the order of registration.
RouteSetup == <<>>
Used(hist) == {k \in DOMAIN Bundles : \E j \in DOMAIN hist : hist[j] = LastOf(Bundles[k])}
RouteMenu(k, s, hist) ==
    LET used == Used(hist)
        last == IF used = {} THEN 0 ELSE CHOOSE m \in used : \A n \in used : n <= m
    IN {Bundles[b] : b \in {x \in DOMAIN Bundles : x \notin used /\ (Wide \/ x > last \/ x \in {2, 6, 12, 14})}}

RoutePaths == ({PathOf(s) : s \in SeqsTo(IF Wide THEN {"a", "b", "c", "1"} ELSE {"a", "c", "1"}, 2)}
               \cup {"/", "/a/b/a", "/c/1/", "/b"}) \ {""}
RouteProbes(s, hist) ==
    LET hosts == IF s.hs = {} /\ s.hp = <<>> THEN {"h.com"} ELSE {"h.com", "a.h.com", "c.h.com"}
        qs == {[Q(p, h, FALSE) EXCEPT !.names = <<"p", "q", "s", "w">>] : p \in RoutePaths, h \in hosts}
    IN (LET l == SetToSeq(qs) IN [k \in DOMAIN l |-> Req(l[k])])
=============================================================================
