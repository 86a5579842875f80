------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties, stated over what can be observed: the tree before and    *)
(* after a call, and the events of a request.  They are written without the  *)
(* operators that compute the outcomes in Tree and Disp, so that a mistake   *)
(* there cannot hide here; Trace evaluates them on every recorded step and   *)
(* the bounded models (MC...) on all of theirs.                             *)
(***************************************************************************)
EXTENDS Ops

-----------------------------------------------------------------------------
(* The route of a request, read off the tree *)

\* The decoded segments of a clean path; a trailing slash adds none.
RECURSIVE DecodeAll(_, _)
DecodeAll(segs, raw) ==
    IF segs = <<>> THEN [ok |-> TRUE, l |-> <<>>]
    ELSE LET u == IF raw THEN Unesc(Head(segs)) ELSE [ok |-> TRUE, s |-> Head(segs)]
             r == DecodeAll(Tail(segs), raw)
         IN IF u.ok THEN [ok |-> r.ok, l |-> <<u.s>> \o r.l] ELSE [ok |-> FALSE, l |-> <<>>]
ReqSegs(q) ==
    LET w == WorkPath(q.path, q.rawpath)
        p == IF w.path # "" /\ Ch(w.path, 1) = "/" THEN From(w.path, 2) ELSE w.path
        t == IF HasSuffix(p, "/") THEN Sub(p, 1, Len(p) - 1) ELSE p
    IN IF Len(w.path) <= 1 \/ t = "" THEN [ok |-> TRUE, l |-> <<>>] ELSE DecodeAll(SplitAt(t, "/"), w.raw)

Matches(st, i, s) == Match(st.n[i].t, s, <<>>).ok
\* The first element of a sequence with a property, or 0.
FirstIn(l, P(_)) ==
    LET k == {j \in DOMAIN l : P(l[j])} IN
    IF k = {} THEN 0 ELSE l[CHOOSE j \in k : \A m \in k : j <= m]

\* C01: static before pattern before wildcard.
Chosen(st, i, seg) ==
    LET s == {j \in st.n[i].st : StaticText(st.n[j].t) = seg}
        p == FirstIn(st.n[i].pt, LAMBDA j : Matches(st, j, seg))
    IN IF seg = "" THEN 0
       ELSE IF s # {} THEN CHOOSE j \in s : TRUE
       ELSE IF p # 0 THEN p
       ELSE st.n[i].wl
TopFor(st, q) ==
    LET h == ReqHost(q)
        s == {j \in st.hs : StaticText(st.n[j].t) = h}
        p == FirstIn(st.hp, LAMBDA j : Matches(st, j, h))
    IN IF h # "" /\ s # {} THEN CHOOSE j \in s : TRUE
       ELSE IF h # "" /\ p # 0 THEN p
       ELSE IF q.path = "" THEN 0
       ELSE st.root

\* The responders a request goes through, as far as it gets.  One that
\* redirects any request ends the way.
RECURSIVE WayFrom(_, _, _)
WayFrom(st, i, segs) ==
    IF i = 0 THEN <<>>
    ELSE IF segs = <<>> \/ st.n[i].any.url # "" THEN <<i>>
    ELSE <<i>> \o WayFrom(st, Chosen(st, i, Head(segs)), Tail(segs))
Way(st, q) == WayFrom(st, TopFor(st, q), ReqSegs(q).l)

\* C02: the last responder of the way if the path ends there, otherwise the
\* nearest subtree handler; 0 if there is none.
Answerer(st, q) ==
    LET w == Way(st, q)
        segs == ReqSegs(q).l
        subs == {k \in DOMAIN w : "sub" \in st.n[w[k]].cf}
    IN IF w = <<>> THEN 0
       ELSE IF st.n[LastOf(w)].any.url # "" \/ Len(w) = Len(segs) + 1 THEN LastOf(w)
       ELSE IF subs = {} THEN 0
       ELSE w[CHOOSE k \in subs : \A m \in subs : m <= k]
\* All of it is decodable, and nothing but ordinary behaviour.
Calm(q) == /\ ReqSegs(q).ok
           /\ \A l \in DOMAIN q.beh : q.beh[l] \in {"pass", "set", "own", "nest"}

Sighted(e) == e.v # NoView
Evs(ev, k) == SelectSeq(ev, LAMBDA e : e.e = k)

\* What the predicates need to know about a request and its events ev.
Context(st, q, ev) ==
    LET chains == [i \in AllOf(st) |-> Chain(st, i)]
        ans == Answerer(st, q)
        way == Way(st, q)
        Seen(v) ==     \* the responder that is visible as the current one
            IF v.cur # <<>> THEN {i \in DOMAIN chains : IsRes(st, i) /\ chains[i] = v.cur}
            ELSE IF v.host # <<>> THEN {i \in DOMAIN chains : IsHost(st, i) /\ chains[i] = v.host}
            ELSE {}
    IN [way |-> way, ans |-> ans, segs |-> ReqSegs(q), work |-> WorkPath(q.path, q.rawpath), calm |-> Calm(q),
        depth |-> IF ans = 0 THEN 0 ELSE CHOOSE k \in DOMAIN way : way[k] = ans,
        seen |-> [k \in DOMAIN ev |-> Seen(ev[k].v)]]

Unanswerable(st, i) == ~CanHandle(st, i) /\ st.n[i].red.url = ""

P01(st, q, x, c) ==
    LET w == Range(c.way) IN
    /\ \A k \in DOMAIN x.ev : c.seen[k] \subseteq w
    /\ c.segs.ok \/ Evs(x.ev, "h") = <<>> \/ \E i \in w : "sub" \in st.n[i].cf

P02(st, q, x, c) ==
    LET i == c.ans
        h == Evs(x.ev, "h")
    IN c.calm =>
       /\ \A k \in DOMAIN x.ev : x.ev[k].e = "h" =>
            i # 0 /\ st.n[i].any.url = "" /\ (Sighted(x.ev[k]) => c.seen[k] = {i})
       /\ i = 0 => Evs(x.ev, "nf") # <<>> /\ Evs(x.ev, "rd") = <<>>
       /\ i # 0 /\ Unanswerable(st, i) /\ st.n[i].any.url = "" =>
            Evs(x.ev, "nf") # <<>> /\ Evs(x.ev, "rd") = <<>>
       /\ \A k \in DOMAIN h : Sighted(h[k]) =>
            LET below == Len(c.segs.l) - (c.depth - 1)
                w == c.work
                p == IF w.raw THEN w.path ELSE EscPath(w.path)
            IN IF below = 0 THEN h[k].v.rem \in {"", "*"}
               ELSE /\ HasSuffix(p, h[k].v.rem)
                    /\ Cardinality({j \in 1..Len(h[k].v.rem) : Ch(h[k].v.rem, j) = "/"})
                       = below - 1 + (IF HasPrefix(h[k].v.rem, "/") THEN 1 ELSE 0)
                         + (IF TrailingSlash(w.path) THEN 1 ELSE 0)
                    /\ HasPrefix(h[k].v.rem, "/") # ("ts" \in st.n[i].cf /\ IsRes(st, i))

\* C03: the values that a handler sees are the ones the templates on its way take.
P03(st, q, x, c) ==
    LET w == c.way
        segs == c.segs.l
        hostVals == IF IsHost(st, w[1]) THEN Match(st.n[w[1]].t, ReqHost(q), <<>>).vals ELSE <<>>
        ValsAt(k) == IF k = 1 THEN hostVals ELSE Match(st.n[w[k]].t, segs[k - 1], <<>>).vals
    IN w # <<>> => \A e \in Range(x.ev) :
        e.e = "h" /\ Sighted(e) =>
            \A n \in DOMAIN q.names :
                LET given == {Val(ValsAt(k), q.names[n]).v :
                                k \in {j \in DOMAIN w : q.names[n] \in Range(ValueNames(st.n[w[j]].t))}}
                IN e.v.g[n] \in given \cup {""}
                   /\ (c.calm /\ given # {} /\ Len(w) = c.depth => e.v.g[n] \in given)

\* C07
P07(st, q, x, c) ==
    ~q.tls => \A k \in DOMAIN x.ev :
        x.ev[k].e = "h" =>
            \A i \in c.seen[k] : "sec" \notin st.n[i].cf

\* C08
NeedsSlash(st, i) == "ts" \in st.n[i].cf
P08(st, q, x, c) ==
    LET i == c.ans
        w == c.work
        whole == i # 0 /\ Len(c.segs.l) = c.depth - 1
        wrong == /\ ~st.n[i].root /\ NeedsSlash(st, i) # TrailingSlash(w.path)
                 /\ IsRes(st, i) /\ whole
        F(f) == f \in st.n[i].cf
        plain == st.n[i].any.url = "" /\ st.n[i].red.url = ""
    IN c.calm /\ i # 0 /\ ~Unanswerable(st, i) /\ plain /\ (IsRes(st, i) \/ whole) /\ ~(~q.tls /\ F("sec")) =>
       /\ Evs(x.ev, "h") # <<>> => (~wrong \/ F("lts")) /\ (~w.unclean \/ F("lup"))
       /\ ~wrong /\ (~w.unclean \/ F("lup")) => Evs(x.ev, "rd") = <<>>
       /\ wrong /\ ~F("lts") /\ F("strict") => Evs(x.ev, "rd") = <<>> /\ Evs(x.ev, "nf") # <<>>
       /\ wrong /\ ~F("lts") /\ ~F("strict") => Evs(x.ev, "rd") # <<>>
       /\ w.unclean /\ ~F("lup") /\ ~(wrong /\ ~F("lts") /\ F("strict")) => Evs(x.ev, "rd") # <<>>

\* C09: a redirect that nobody asked for.
\* The request that follows the URL u of a redirect.
FollowUp(q, u) ==
    LET s == IdxFrom(u, ":", 1)
        rest == From(u, s + 3)
        ends == {k \in 1..Len(rest) : Ch(rest, k) \in {"/", "?"}}
        sl == IF ends = {} THEN Len(rest) + 1 ELSE CHOOSE k \in ends : \A m \in ends : k <= m
        host == Sub(rest, 1, sl - 1)
        pq == From(rest, sl)
        qm == IdxFrom(pq, "?", 1)
        enc == IF qm = 0 THEN pq ELSE Sub(pq, 1, qm - 1)
        p == Unesc(enc).s
    IN [q EXCEPT !.host = host, !.uhost = "", !.uscheme = "", !.tls = (Sub(u, 1, s - 1) = "https"),
                 !.path = p, !.rawpath = IF EscPath(p) = enc THEN "" ELSE enc,
                 !.query = IF qm = 0 THEN "" ELSE From(pq, qm + 1)]
AutoRedirected(st, q, x, c) ==
    LET i == c.ans IN
    i # 0 /\ st.n[i].any.url = "" /\ Evs(x.ev, "rd") # <<>>
    /\ (st.n[i].red.url = "" \/ Evs(x.ev, "rd")[1].u # JoinURL(st.n[i].red.url, Evs(x.ev, "rd")[1].v.rem))
P09(st, q, x, c) ==
    c.calm /\ q.path # "*" /\ AutoRedirected(st, q, x, c) =>
    LET i == c.ans
        e == Evs(x.ev, "rd")[1]
        f == FollowUp(q, e.u)
        y == Served(st, f, 0)
        HostIn == IF q.uhost = "" THEN q.host ELSE q.uhost
    IN /\ e.c = (IF st.n[i].prc > 0 THEN st.n[i].prc ELSE st.prc)
       /\ HostIn # "" => f.host = HostIn
       /\ f.query = q.query
       /\ q.uscheme # "" \/ f.tls = (q.tls \/ "sec" \in st.n[i].cf)
       /\ HostIn # "" /\ (q.host = "" \/ q.uhost = "" \/ q.host = q.uhost) /\ q.uscheme = "" =>
            /\ Answerer(st, f) = i
            /\ ~AutoRedirected(st, f, y.a, Context(st, f, <<>>))

\* C10
P10(st, q, x, c) ==
    /\ \A n \in DOMAIN x.ev : x.ev[n].e = "h" =>
        \A i \in c.seen[n] :
            LET e == x.ev[n]
                own == {st.n[i].mh[k].h : k \in {j \in DOMAIN st.n[i].mh : st.n[i].mh[j].m = q.method}} IN
            IF own # {} THEN e.l \in own ELSE e.l = st.n[i].na
    /\ \A k \in DOMAIN x.w : x.w[k].c = 405 \/ x.w[k].allow # "" =>
        \E i \in Range(c.way) :
            LET ms == {st.n[i].mh[j].m : j \in DOMAIN st.n[i].mh} IN
            /\ x.w[k].c = 405 => q.method \notin ms /\ st.n[i].na \in {"", "#notallowed"}
            /\ x.w[k].c = 200 => q.method = "OPTIONS"
            /\ Range(SplitMethods(x.w[k].allow)) = ms

\* C11
Ends_(q, e) == e.e \in {"h", "rd", "nf"} /\ ~(e.l \in DOMAIN q.beh /\ q.beh[e.l] = "F")
P11(st, q, x, c) ==
    LET orderly == \A l \in DOMAIN q.beh : q.beh[l] \notin {"panic", "forceF", "forceT"}
        nfs == \A e \in Range(x.ev) : e.e = "nf" => ~(e.l \in DOMAIN q.beh /\ q.beh[e.l] = "F")
        ends == SelectSeq(x.ev, LAMBDA e : Ends_(q, e))
        silent == \E e \in Range(x.ev) :       \* handled, but without a response
                    \/ e.e = "in" /\ HttpMw(e.l) /\ e.l \in DOMAIN q.beh /\ q.beh[e.l] = "stopF"
                    \/ e.e = "h" /\ Ch(e.l, 1) \in {"=", "-"} /\ e.l \in DOMAIN q.beh /\ q.beh[e.l] = "F"
                    \/ e.e \in {"in", "nf"} /\ e.l \in DOMAIN q.beh /\ q.beh[e.l] \in {"stopF", "F"}
    IN /\ orderly => Len(ends) <= 1 /\ Len(x.w) <= 1
       /\ orderly /\ nfs /\ ~silent => Len(x.w) = 1
       /\ c.calm => Len(x.w) = 1

\* C12: middlewares are properly nested and belong to what they run around.
RECURSIVE WellNested(_, _)
WellNested(ev, open) ==
    IF ev = <<>> THEN open = <<>>
    ELSE LET e == Head(ev) IN
         IF e.e = "in" THEN WellNested(Tail(ev), Append(open, e.l))
         ELSE IF e.e = "out" THEN open # <<>> /\ LastOf(open) = e.l /\ WellNested(Tail(ev), FrontOf(open))
         ELSE WellNested(Tail(ev), open)
WrapsOf(st, i) ==
    LET x == st.n[i] IN
    Range(x.pw) \cup Range(x.hw) \cup Range(x.naw) \cup Range(x.rdw)
    \cup UNION {Range(x.mh[k].w) : k \in DOMAIN x.mh}
P12(st, q, x, c) ==
    LET straight == \A l \in DOMAIN q.beh : q.beh[l] \in {"pass", "set", "own", "nest", "F"}
        pre == SelectSeq(x.ev, LAMBDA e : e.e = "in")
    IN /\ straight => WellNested(x.ev, <<>>)
       /\ \A e \in Range(x.ev) : e.e = "in" =>
            e.l \in Range(st.ps) \cup Range(st.nf) \cup Range(st.rdw)
                    \cup UNION {WrapsOf(st, i) : i \in Range(c.way)}
       /\ straight /\ st.ps # <<>> =>
            \A k \in DOMAIN st.ps : Len(pre) >= k /\ pre[k].l = st.ps[Len(st.ps) + 1 - k]

\* C17
P17(st, q, x, c) ==
    LET i == c.ans
        rd == Evs(x.ev, "rd")
    IN c.calm /\ i # 0 =>
       /\ st.n[i].any.url # "" => rd # <<>> /\ Evs(x.ev, "h") = <<>>
       /\ st.n[i].red.url # "" => Evs(x.ev, "h") = <<>>
       /\ \A k \in DOMAIN rd :
            /\ rd[k].l = (IF st.n[i].rdh # "" THEN st.n[i].rdh ELSE st.crd)
            /\ st.n[i].any.url # "" => rd[k].c = st.n[i].any.code
                                       /\ HasPrefix(rd[k].u, st.n[i].any.url)

\* C18
P18(st, q, x, c) ==
    \A k \in DOMAIN x.ev : \A i \in c.seen[k] :
        x.ev[k].v.data = st.n[i].data /\ x.ev[k].v.impl = st.n[i].impl

\* x: [ev, w] of the request q to the router in the state st.
RequestProps(st, q, x) ==
    LET c == Context(st, q, x.ev)
        Chk(name, P) == IF P THEN TRUE ELSE ~PrintT("BROKEN " \o name \o " " \o ToString(q)) IN
    /\ Chk("C01", P01(st, q, x, c)) /\ Chk("C02", P02(st, q, x, c)) /\ Chk("C03", P03(st, q, x, c))
    /\ Chk("C07", P07(st, q, x, c)) /\ Chk("C08", P08(st, q, x, c)) /\ Chk("C09", P09(st, q, x, c))
    /\ Chk("C10", P10(st, q, x, c)) /\ Chk("C11", P11(st, q, x, c)) /\ Chk("C12", P12(st, q, x, c))
    /\ Chk("C17", P17(st, q, x, c)) /\ Chk("C18", P18(st, q, x, c))

-----------------------------------------------------------------------------
(* Calls *)

Placed(s) == <<s.hs, s.hp, s.root, s.ps, s.prc, s.crd, s.rdw, s.nfh, s.nf>>
Bare(x) == [x EXCEPT !.urlt = 0]
Untouched(st, s, ids) == \A i \in ids : Bare(s.n[i]) = Bare(st.n[i])
All(st) == DOMAIN st.n

Asks == {"Registered", "RegisteredHost", "HostNamed", "ChildNamed", "ParentOf", "HostOf", "Has", "Get",
         "GetAt", "URL", "Req", "Conc", "Match", "Apply", "Sim", "Parse", "Vals", "Common"}
Creates == {"Host", "Resource"}
Joins == {"RegisterHost", "Register", "RegisterUnder"}

\* C20.  A setter at a URL may have created the responder before it finds that
\* its argument isn't acceptable.
Itself(x) == [Bare(x) EXCEPT !.st = {}, !.pt = <<>>, !.wl = 0]
A20(st, o, r) ==
    ~r.ok /\ ~r.dirty =>
        IF o.op = "SetAt"
        THEN \A i \in All(st) : "act" \in st.n[i].cf => Itself(r.st.n[i]) = Itself(st.n[i])
        ELSE Placed(r.st) = Placed(st) /\ Untouched(st, r.st, All(st))

\* C15.  Asking for a responder that nobody has configured yet counts as its first use.
SameButFirstUse(st, s) ==
    \A i \in DOMAIN st.n :
        IF "act" \in st.n[i].cf THEN Bare(s.n[i]) = Bare(st.n[i])
        ELSE [Bare(s.n[i]) EXCEPT !.cf = {}] = [Bare(st.n[i]) EXCEPT !.cf = {}]
A15(st, o, r) ==
    /\ o.op \in Asks => Placed(r.st) = Placed(st) /\ SameButFirstUse(st, r.st)
    /\ o.op \in Creates /\ r.ok =>
        /\ r.ret # 0 /\ r.ret \in DOMAIN r.st.n
        /\ \A i \in AllOf(st) : r.st.n[i].t = st.n[i].t /\ r.st.n[i].parent = st.n[i].parent
        /\ AllOf(st) \subseteq AllOf(r.st)
        /\ Cardinality(AllOf(r.st) \ AllOf(st)) <= Cardinality(Range(PathUp(r.st, r.ret)) \ DOMAIN st.n)

\* C14: everything of both trees is in the tree afterwards, except for responders
\* that were merged with another one; nothing else has appeared.
A14(st, o, r) ==
    o.op \in Joins /\ r.ok =>
        LET was == AllOf(st) \cup {RefOf(st, o.r)} \cup Subtree(st, RefOf(st, o.r))
            is == AllOf(r.st)
            handlers(s, ids) == {i \in ids : CanHandle(s, i)}
        IN RefOf(st, o.r) \in is =>
            /\ handlers(st, was) \subseteq is
            /\ \A i \in handlers(st, was) : r.st.n[i].mh = st.n[i].mh /\ r.st.n[i].hw = st.n[i].hw
                                            /\ r.st.n[i].t = st.n[i].t /\ r.st.n[i].data = st.n[i].data

\* C16: configurations stay, except for the ones that the call is about.
A16(st, o, r) ==
    r.ok =>
        LET changed == {i \in DOMAIN st.n : "act" \in st.n[i].cf /\ r.st.n[i].cf # st.n[i].cf} IN
        IF o.op \in {"Set", "SetAt"} /\ o.set = "Configuration" THEN Cardinality(changed) <= 1
        ELSE IF o.op = "SetSub" /\ o.set = "Configuration"
        THEN \A i \in changed : st.n[i].cf \subseteq {"act", "sec", "ts"}
        ELSE IF o.op \in Joins THEN TRUE
        ELSE changed = {}

CallProps(st, o, r, out) ==
    LET Chk(name, P) == IF P THEN TRUE ELSE ~PrintT("BROKEN " \o name \o " " \o ToString(o)) IN
    /\ Chk("C20", A20(st, o, r)) /\ Chk("C15", A15(st, o, r))
    /\ Chk("C14", A14(st, o, r)) /\ Chk("C16", A16(st, o, r))
    /\ o.op = "Req" /\ r.ok /\ RefOf(st, o.i) = 0 => RequestProps(st, o.q, out)

\* C13 and the shape of the tree.
StateProps(st) == TreeInv(st)
=============================================================================
