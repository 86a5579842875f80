-------------------------------- MODULE MCMw --------------------------------
(* C11, C12, C17, C18, C19: middlewares of both kinds at every place, and all  *)
(* behaviours of any one or two of them. *)
EXTENDS MC

Kinds == IF Wide THEN {"N", "A"} ELSE {"N", "A"}
L(k, l) == IF k = "N" THEN l ELSE "~" \o l
Handlers == {"h9", "=h9", "-h9"}

\* x: the kinds of the middlewares; h: the handler.
Chains(x, h) ==
    <<[op |-> "RWrapPasser", mws |-> <<L(x[1], "m1")>>],
      Cfg(0, "/a", <<"sub">>),
      H(0, "/a", "GET", h),
      H(0, "/a/b", "GET", "h8"),
      [op |-> "SetAt", set |-> "SharedData", i |-> 0, u |-> "/a", data |-> "d1"],
      [op |-> "SetAt", set |-> "SharedData", i |-> 0, u |-> "/a/b", data |-> "d2"],
      Wrap(0, "/a", "WrapPasser", <<L(x[2], "m2"), L(x[1], "m3")>>),
      Wrap(0, "/a", "WrapHandler", <<L(x[3], "m4")>>),
      [op |-> "SetAt", set |-> "WrapHandlerOf", i |-> 0, u |-> "/a", methods |-> "GET", mws |-> <<L(x[2], "m5")>>],
      Wrap(0, "/a/b", "WrapHandler", <<L(x[1], "m6")>>),
      [op |-> "WrapNF", mws |-> <<L(x[3], "m7")>>],
      [op |-> "WrapCRH", mws |-> <<"q1">>],
      Redir(0, "/r", "Redirect", "/to", 307),
      [op |-> "SetAt", set |-> "RedirectHandler", i |-> 0, u |-> "/a/b", h |-> "r1"],
      [op |-> "SetAt", set |-> "WrapRedirectHandler", i |-> 0, u |-> "/a/b", mws |-> <<"q2">>]>>
MwMenu(k, s, hist) ==
    {Chains(x, h) : x \in [1..3 -> Kinds], h \in Handlers}
MwSetup == <<>>

\* The labels that exist.
Mws(hist) == UNION {Range(o.mws) : o \in {x \in Range(hist) : "mws" \in DOMAIN x}} \ {"q1", "q2"}
Hs(hist) == {o.h : o \in {x \in Range(hist) : "h" \in DOMAIN x}} \ {"r1"}
ActsOf(hist, l) ==
    IF l \in {"q1", "q2"} THEN {"stopT", "stopF", "forceT", "forceF"}
    ELSE IF l \in {"r1", "#nf", "#std"} THEN {"F"}
    ELSE IF l \in Mws(hist) THEN {"stopT", "stopF", "forceT", "forceF", "own"}
    ELSE {"F", "panic"}
\* The labels that matter to a path.
Behs(hist) ==
    LET ls == Mws(hist) \cup Hs(hist) \cup {"#nf", "q1", "q2", "r1"}
        ones == UNION {{(l :> a) : a \in ActsOf(hist, l)} : l \in ls}
        twos == IF ~Wide THEN {}
                ELSE UNION {UNION {{(l :> a) @@ (m :> b) : a \in ActsOf(hist, l), b \in ActsOf(hist, m)}
                                   : m \in ls \ {l}} : l \in ls}
    IN {<<>>} \cup ones \cup twos
MwProbes(s, hist) ==
    LET ps == {"/a/b", "/a/x", "/a/b/", "/c"}
        fit(p, b) == TRUE
        qs == {[Q(p, "h.com", FALSE) EXCEPT !.beh = b, !.keys = <<"k", "~m1", "m1", "m4", "~m4">>] : p \in ps, b \in Behs(hist)}
              \cup {[Q("/r/x", "h.com", FALSE) EXCEPT !.beh = b] : b \in {<<>>, ("q1" :> "stopF"), ("#std" :> "F"), ("q1" :> "forceF")}}
        l == SetToSeq(qs)
    IN [k \in DOMAIN l |-> Req(l[k])]

\* C19: with native middlewares and handlers in the place of the adapted ones, the
\* same happens in the same order with the same arguments.
Strip(l) == IF Ch(l, 1) \in {"~", "=", "-"} THEN From(l, 2) ELSE l
NativeOf(o) ==
    LET x == IF "h" \in DOMAIN o THEN [o EXCEPT !.h = Strip(@)] ELSE o IN
    IF "mws" \in DOMAIN x THEN [x EXCEPT !.mws = [k \in DOMAIN @ |-> Strip(@[k])]] ELSE x
Same(e, f) ==
    /\ e.e = f.e /\ Strip(e.l) = f.l /\ e.u = f.u /\ e.c = f.c
    /\ Sighted(e) => /\ e.v.g = f.v.g /\ e.v.rem = f.v.rem /\ e.v.data = f.v.data /\ e.v.impl = f.v.impl
                     /\ e.v.host = f.v.host /\ e.v.cur = f.v.cur
                     /\ [k \in DOMAIN e.v.keys |-> IF e.v.keys[k] = "" THEN "" ELSE Strip(e.v.keys[k])] = f.v.keys
Adapters ==
    step = 1 =>
        LET native == Run(InitTree, [k \in DOMAIN calls |-> NativeOf(calls[k])]).st
            all == {x \in Mws(calls) : TRUE}
        IN \A p \in {"/a/b", "/a/x", "/a/b/", "/c", "/r/x"} :
            LET q == [Q(p, "h.com", FALSE) EXCEPT !.beh = [l \in all |-> "set"], !.keys = <<"k">>]
                n == [q EXCEPT !.beh = [l \in {Strip(x) : x \in all} |-> "set"]]
                x == Served(tree, q, 0).a
                y == Served(native, n, 0).a
            IN /\ Len(x.ev) = Len(y.ev) /\ \A k \in DOMAIN x.ev : Same(x.ev[k], y.ev[k])
               /\ x.w = y.w
=============================================================================
