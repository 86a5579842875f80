------------------------------- MODULE MCReg --------------------------------
(* C13, C14, C15, C20: what is there, what has been built separately, and     *)
(* all ways to bring them together. *)
EXTENDS MC

\* What is registered already.
There ==
    {<<>>,
     <<Res(0, "/a")>>,
     <<H(0, "/a", "GET", "h1")>>,
     <<H(0, "/a/b", "GET", "h2")>>,
     <<H(0, "/{p:a|b}", "GET", "h3"), H(0, "/{p:a|b}/c", "GET", "h4")>>,
     <<H(0, "http://h.com/a", "GET", "h5")>>,
     <<H(0, "/$n1:a/b", "GET", "h6")>>,
     <<Res(0, "https:///a/"), H(0, "https:///a/b/", "GET", "h7")>>}
    \cup (IF Wide THEN {<<H(0, "/{w}/c", "GET", "h8")>>, <<H(0, "/a/$n1:c", "GET", "h9")>>,
                        <<H(0, "/", "GET", "h10"), H(0, "/a/{w}", "GET", "h11")>>,
                        <<H(0, "http://$hn:h.com", "GET", "h12"), H(0, "http://h.com/b/c", "GET", "h13")>>}
          ELSE {})

\* What is built separately; p is the position of the first call.
Built(p) ==
    {<<PreRes("a")>>,
     <<PreRes("a"), SetH(p, "GET", "g1")>>,
     <<PreRes("/a/b"), SetH(p, "GET", "g2")>>,
     <<PreRes("a"), H(p, "b", "GET", "g3")>>,
     <<PreRes("{p:a|b}"), H(p, "c", "GET", "g4"), H(p, "d", "POST", "g5")>>,
     <<PreRes("http://h.com/a"), SetH(p, "GET", "g6")>>,
     <<PreHost("h.com"), H(p, "a", "GET", "g7"), SetH(p, "POST", "g8")>>}
    \cup (IF Wide THEN {<<PreRes("$n1:b"), H(p, "{w}", "GET", "g9")>>,
                        <<PreRes("https:///a/"), H(p, "b", "GET", "g10")>>,
                        <<PreRes("{w}"), H(p, "{p:a|b}/c", "GET", "g11")>>,
                        <<PreRes("/"), H(p, "a/b", "GET", "g12")>>,
                        <<PreHost("$hn:h.com"), H(p, "a/b", "GET", "g13")>>,
                        <<PreHost("{w}.com"), SetH(p, "GET", "g14")>>,
                        <<PreRes("a"), H(p, "{p:a|b}", "GET", "g15"), H(p, "{p:a|b}/$n1:c", "GET", "g16")>>}
          ELSE {})

Prebuilt(hist) == LET p == Position(hist, {"MkRes", "MkHost"}) IN p
\* How they come together.  A resource is also registered under another one.
Joined(s, hist) ==
    LET b == Prebuilt(hist)
        n == Len(hist) + 1
    IN IF hist[b].op = "MkHost"
       THEN {<<RegHost(b)>>, <<HostOp("h.com"), RegHost(b)>>, <<RegHost(b), RegHost(b)>>}
       ELSE {<<Reg(0, b)>>, <<RegUnder(0, "/a", b)>>, <<RegUnder(0, "/b/", b)>>,
             <<RegUnder(0, "http://h.com", b)>>, <<Reg(b, b)>>,
             <<Res(0, "/c"), Reg(n, b)>>, <<Reg(0, b), Reg(0, b)>>,
             <<PreRes("b"), Reg(n, b), Reg(0, n)>>}
            \cup (IF Wide THEN {<<Find(0, "/a"), Reg(n, b)>>, <<RegUnder(0, "/{p:a|b}", b)>>,
                                <<HostOp("h.com"), Reg(n, b)>>, <<HostOp("h.com"), RegUnder(n, "/a", b)>>,
                                <<PreHost("http://h.com"), Reg(n, b), RegHost(n)>>,
                                <<Reg(0, b), RegUnder(0, "/c", b)>>,
                                <<PreRes("$n1:x"), RegUnder(n, "/a", b), Reg(0, n)>>}
                  ELSE {})

RegMenu(k, s, hist) ==
    CASE k = 1 -> There
      [] k = 2 -> Built(Len(hist) + 1)
      [] k = 3 -> LET j == Joined(s, hist) IN
                  IF \E o \in Range(hist) : "r" \in DOMAIN o THEN {} ELSE {x \in j : \A m \in DOMAIN x : \A f \in {"i", "r"} :
                       f \in DOMAIN x[m] => x[m][f] = 0 \/ x[m][f] > Len(hist) \/ s.ref[x[m][f]] # 0}
      [] k = 4 -> {<<Find(0, "/a"), Find(0, "/a/b"), Find(0, "http://h.com/a"), Res(0, "/a/b"),
                     [op |-> "ChildNamed", i |-> Prebuilt(hist), n |-> "n1"],
                     [op |-> "HostOf", i |-> Prebuilt(hist)]>>}

RegProbes(s, hist) ==
    LET ps == {"/a", "/a/b", "/b", "/b/a", "/a/c", "/c/a", "/b/c"}
        qs == {Q(p, h, FALSE) : p \in ps, h \in {"h.com"}}
    IN (LET l == SetToSeq(qs) IN [k \in DOMAIN l |-> Req(l[k])])
RegSetup == <<>>
=============================================================================
