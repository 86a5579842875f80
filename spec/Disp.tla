-------------------------------- MODULE Disp --------------------------------
(***************************************************************************)
(* What happens to a request.                                              *)
(*                                                                         *)
(* A request q has                                                         *)
(*   host, uhost, uscheme  the Host header; the host and scheme of its URL  *)
(*   path, rawpath, query  the URL's path, its encoding when it is not the  *)
(*                         default one, and the query                      *)
(*   tls, method                                                           *)
(*   beh                   what middlewares and handlers do, by label       *)
(*   names, keys           the values and arguments that are observed       *)
(*                                                                         *)
(* The state a of a request that is being served:                          *)
(*   path, raw, unclean    what the request's path is worked with as        *)
(*   idx                   number of the characters of the path consumed    *)
(*   sub                   a subtree handler was met on the way             *)
(*   vals                  host and path values                            *)
(*   r                     the current responder (0: none)                 *)
(*   keys                  arguments set by middlewares                    *)
(*   ev                    events observed so far                          *)
(*   w                     responses written so far, [c, allow, loc]        *)
(*   dead                  a handler has panicked                          *)
(*                                                                         *)
(* Exec(st, q, a, ctx, mws, b) runs the base b (see Base) wrapped in the    *)
(* middlewares mws, which are listed from the innermost to the outermost.   *)
(* ctx tells whether the request's context carries the arguments.  The     *)
(* result is [a, res]; res tells whether the request has been handled.      *)
(***************************************************************************)
EXTENDS Tree

\* Names of the HTTP methods of the scenarios in the ASCII order.
CONSTANT MethodOrder

-----------------------------------------------------------------------------
(* URLs of automatic redirects *)

ValidEncChars == AlnumEtc \o "!'()*[]%"
ValidEnc(raw) == \A k \in 1..Len(raw) : HasCh(ValidEncChars, Ch(raw, k))
\* The encoding of a URL's path.
EscapedPathOf(p, raw) ==
    IF raw # "" /\ ValidEnc(raw) /\ Unesc(raw) = [ok |-> TRUE, s |-> p] THEN raw ELSE EscPath(p)

URLString(scheme, host, p, raw, query) ==
    LET ep == EscapedPathOf(p, raw) IN
    scheme \o "://" \o host \o (IF ep # "" /\ Ch(ep, 1) # "/" THEN "/" ELSE "") \o ep
    \o (IF query = "" THEN "" ELSE "?" \o query)

-----------------------------------------------------------------------------
(* Segments of the path *)

Reached(a) == a.idx = Len(a.path)
\* [ok, seg, idx]
Next1(a) ==
    IF Reached(a) THEN [ok |-> TRUE, seg |-> "", idx |-> a.idx]
    ELSE IF a.idx = 0 THEN [ok |-> TRUE, seg |-> "/", idx |-> 1]
    ELSE LET i == IdxFrom(a.path, "/", a.idx + 1)
             seg == IF i = 0 THEN From(a.path, a.idx + 1) ELSE Sub(a.path, a.idx + 1, i - 1)
             u == IF a.raw THEN Unesc(seg) ELSE [ok |-> TRUE, s |-> seg]
         IN [ok |-> u.ok, seg |-> u.s, idx |-> IF i = 0 THEN Len(a.path) ELSE i]

RemainingRaw(st, a) ==
    IF Reached(a) THEN ""
    ELSE IF a.r # 0
    THEN IF (IsRes(st, a.r) /\ "ts" \in st.n[a.r].cf) \/ a.path = "/"
         THEN From(a.path, a.idx + 1 + (IF a.idx = 0 THEN 1 ELSE 0))
         ELSE IF a.idx > 0 THEN From(a.path, a.idx) ELSE From(a.path, 1)
    ELSE From(a.path, a.idx + 1)
RemainingPath(st, a) ==
    IF a.raw THEN RemainingRaw(st, a) ELSE EscPath(RemainingRaw(st, a))

-----------------------------------------------------------------------------
(* What is observed *)

\* Templates from the topmost responder to i.
Chain(st, i) ==
    IF i = 0 THEN <<>>
    ELSE LET ids == Reverse(PathUp(st, i)) IN
         [k \in DOMAIN ids |-> st.n[ids[k]].kind \o " " \o TStr(st.n[ids[k]].t)]

\* What handlers and middlewares can see is a function of the state of the request
\* at the moment; an event keeps these parts of it.
Moment(a, ctx, blind) ==
    [r |-> a.r, idx |-> a.idx, vals |-> a.vals, keys |-> a.keys, ctx |-> ctx, blind |-> blind]
NoView == [g |-> <<>>, rem |-> "", data |-> "", impl |-> "", host |-> <<>>, cur |-> <<>>,
           keys |-> <<>>, ctx |-> FALSE]
\* The arguments cannot be seen by an adapted net/http handler without a context.
Blind(ctx, l) == ~ctx /\ Ch(l, 1) = "-"

Ev(st, q, a, ctx, e, l, u, c, res) ==
    IF a.dead THEN a
    ELSE [a EXCEPT !.ev = Append(@, [e |-> e, l |-> l, u |-> u, c |-> c, res |-> res, req |-> TRUE,
                                     v |-> Moment(a, ctx, Blind(ctx, l))])]
WriteLoc(a, c, allow, loc) ==
    IF a.dead THEN a ELSE [a EXCEPT !.w = Append(@, [c |-> c, allow |-> allow, loc |-> loc])]
Write(a, c, allow) == WriteLoc(a, c, allow, "")

Beh(q, l) == IF l \in DOMAIN q.beh THEN q.beh[l] ELSE "pass"
\* Middlewares whose labels start with "~" are net/http middlewares.
HttpMw(l) == Ch(l, 1) = "~"
\* Another request is made from within this one and goes its own way.
Nested(st, q, a, ctx, l, u, c) ==
    IF Beh(q, l) = "nest" THEN Ev(st, q, a, ctx, "h2", l, u, c, FALSE) ELSE a
\* Handlers whose labels start with these are adapted net/http handlers: "=" with
\* the arguments in the context, "-" without.
WithCtx(l) == Ch(l, 1) = "="
AllowOf(st, i) ==
    JoinWith(SelectSeq(MethodOrder, LAMBDA m : MethodIdx(st.n[i].mh, m) # {}), ", ")

-----------------------------------------------------------------------------
(* Bases *)

BPassRouter == [k |-> "rpass", i |-> 0, h |-> "", u |-> "", c |-> 0]
BPass(i) == [k |-> "pass", i |-> i, h |-> "", u |-> "", c |-> 0]
BRecv(i) == [k |-> "recv", i |-> i, h |-> "", u |-> "", c |-> 0]
BHandle(i) == [k |-> "handle", i |-> i, h |-> "", u |-> "", c |-> 0]
BMethod(i, h) == [k |-> "method", i |-> i, h |-> h, u |-> "", c |-> 0]
BNotFound(st) == [k |-> "nf", i |-> 0, h |-> st.nfh, u |-> "", c |-> 0]
BRedirect(h, u, c) == [k |-> "rd", i |-> 0, h |-> h, u |-> u, c |-> c]

R(a, res) == [a |-> a, res |-> res]

RECURSIVE Exec(_, _, _, _, _, _)
RECURSIVE MatchChildren(_, _, _, _, _, _)

NotFound(st, q, a, ctx) == Exec(st, q, a, ctx, st.nf, BNotFound(st))

\* Through the redirect handler of the responder i.
RedirectVia(st, q, a, ctx, i, url, code) ==
    IF st.n[i].rdh = "" THEN Exec(st, q, a, ctx, st.rdw, BRedirect(st.crd, url, code))
    ELSE Exec(st, q, a, ctx, st.n[i].rdw, BRedirect(st.n[i].rdh, url, code))

JoinURL(u, rem) ==
    IF rem = "" THEN u
    ELSE IF Ch(rem, 1) = "/"
    THEN IF HasSuffix(u, "/") THEN u \o From(rem, 2) ELSE u \o rem
    ELSE IF HasSuffix(u, "/") THEN u \o rem ELSE u \o "/" \o rem
Redirector(st, q, a, ctx, i, red) ==
    RedirectVia(st, q, a, ctx, i, JoinURL(red.url, RemainingPath(st, a)), red.code)

\* The responder i is the one that answers.  last: the request's path ends
\* at it, or the trailing slash policy applies for another reason.
Answer(st, q, a, ctx, i, slashPolicy) ==
    LET x == st.n[i]
        Has(f) == f \in x.cf
        insecure == ~q.tls /\ Has("sec")
        relocate == a.unclean /\ ~Has("lup")
        mism == slashPolicy /\ ~Has("lts") /\ (Has("ts") # TrailingSlash(a.path))
        dec == IF a.raw THEN Unesc(a.path) ELSE [ok |-> TRUE, s |-> a.path]
        p0 == IF ~relocate THEN [p |-> q.path, r |-> q.rawpath]
              ELSE IF a.raw /\ dec.ok THEN [p |-> dec.s, r |-> a.path]
              ELSE [p |-> a.path, r |-> ""]
        p1 == IF ~mism THEN p0
              ELSE IF Has("ts")
              THEN [p |-> p0.p \o "/", r |-> IF p0.r = "" THEN "" ELSE p0.r \o "/"]
              ELSE IF p0.r = "" THEN [p |-> TrimSlashes(p0.p), r |-> ""]
              ELSE LET r == TrimSlashes(p0.r) IN
                   [p |-> Sub(p0.p, 1, Len(p0.p) - (Len(p0.r) - Len(r))), r |-> r]
        scheme == IF insecure THEN "https"
                  ELSE IF q.uscheme # "" THEN q.uscheme
                  ELSE IF q.tls THEN "https" ELSE "http"
        url == URLString(scheme, IF q.uhost = "" THEN q.host ELSE q.uhost, p1.p, p1.r, q.query)
        code == IF x.prc > 0 THEN x.prc ELSE st.prc
    IN IF ~CanHandle(st, i) /\ x.red.url = "" THEN NotFound(st, q, a, ctx)
       ELSE IF insecure /\ ~Has("red") THEN NotFound(st, q, a, ctx)
       ELSE IF mism /\ Has("strict") THEN NotFound(st, q, a, ctx)
       ELSE IF insecure \/ relocate \/ mism THEN RedirectVia(st, q, a, ctx, i, url, code)
       ELSE IF x.red.url # "" THEN Redirector(st, q, a, ctx, i, x.red)
       ELSE Exec(st, q, a, ctx, x.hw, BHandle(i))

HostRecv(st, q, a0, ctx, i) ==
    LET x == st.n[i]
        sub == "sub" \in x.cf
        a1 == IF Len(a0.path) > 1
              THEN LET b == [a0 EXCEPT !.sub = @ \/ sub] IN [b EXCEPT !.idx = Next1(b).idx]
              ELSE a0
        p == IF Len(a0.path) > 1 THEN Exec(st, q, a1, ctx, x.pw, BPass(i)) ELSE R(a1, FALSE)
        a2 == IF Len(a0.path) > 1 THEN [p.a EXCEPT !.r = i] ELSE a1
    IN IF p.res THEN p
       ELSE IF Len(a0.path) > 1 /\ ~sub THEN NotFound(st, q, a2, ctx)
       ELSE Answer(st, q, a2, ctx, i, sub /\ Len(a0.path) > 1)

ResRecv(st, q, a0, ctx, i) ==
    LET x == st.n[i]
        sub == "sub" \in x.cf
        a1 == [a0 EXCEPT !.sub = @ \/ sub]
        last == Reached(a1)
        p == IF last THEN R(a1, FALSE) ELSE Exec(st, q, a1, ctx, x.pw, BPass(i))
    IN IF p.res THEN p
       ELSE IF ~last /\ ~sub THEN p
       ELSE Answer(st, q, IF last THEN p.a ELSE [p.a EXCEPT !.r = i], ctx, i, last)

Pass(st, q, a0, ctx, i) ==
    LET n == Next1(a0)
        a1 == [a0 EXCEPT !.idx = n.idx]
        m == IF n.ok /\ n.seg # ""
             THEN LET s == {j \in st.n[i].st : StaticText(st.n[j].t) = n.seg} IN
                  IF s # {} THEN [id |-> CHOOSE j \in s : TRUE, vals |-> a1.vals]
                  ELSE MatchChildren(st, st.n[i].pt, 1, st.n[i].wl, n.seg, a1.vals)
             ELSE [id |-> 0, vals |-> a1.vals]
        Back(r) == [r EXCEPT !.a.idx = a0.idx]
    IN IF ~n.ok THEN Back(R(Write(a1, 400, ""), TRUE))
       ELSE IF m.id # 0
       THEN Back(Exec(st, q, [a1 EXCEPT !.vals = m.vals, !.r = m.id], ctx, <<>>, BRecv(m.id)))
       ELSE IF a1.sub THEN Back(R(a1, FALSE))
       ELSE Back(NotFound(st, q, a1, ctx))

MatchChildren(st, pt, k, wl, seg, vals) ==
    IF k > Len(pt)
    THEN IF wl = 0 THEN [id |-> 0, vals |-> vals]
         ELSE [id |-> wl, vals |-> Match(st.n[wl].t, seg, vals).vals]
    ELSE LET m == Match(st.n[pt[k]].t, seg, vals) IN
         IF m.ok THEN [id |-> pt[k], vals |-> m.vals]
         ELSE MatchChildren(st, pt, k + 1, wl, seg, vals)

ReqHost(q) == HostName(IF q.host = "" THEN q.uhost ELSE q.host)
RouterPass(st, q, a, ctx) ==
    LET h == ReqHost(q)
        s == IF h = "" THEN {} ELSE {j \in st.hs : StaticText(st.n[j].t) = h}
        m == IF s # {} THEN [id |-> CHOOSE j \in s : TRUE, vals |-> a.vals]
             ELSE IF h = "" THEN [id |-> 0, vals |-> a.vals]
             ELSE MatchChildren(st, st.hp, 1, 0, h, a.vals)
    IN IF m.id # 0
       THEN Exec(st, q, [a EXCEPT !.vals = m.vals, !.r = m.id], ctx, <<>>, BRecv(m.id))
       ELSE IF st.root # 0 /\ q.path # ""
       THEN Exec(st, q, [a EXCEPT !.idx = Next1(a).idx, !.r = st.root], ctx, <<>>, BRecv(st.root))
       ELSE NotFound(st, q, a, ctx)

Receive(st, q, a, ctx, i) ==
    IF st.n[i].any.url # "" THEN Redirector(st, q, a, ctx, i, st.n[i].any)
    ELSE IF IsHost(st, i) THEN HostRecv(st, q, a, ctx, i)
    ELSE ResRecv(st, q, a, ctx, i)

Handle(st, q, a, ctx, i) ==
    LET x == st.n[i]
        k == MethodIdx(x.mh, q.method)
        h == x.mh[CHOOSE j \in k : TRUE]
    IN IF x.mh = <<>> THEN NotFound(st, q, a, ctx)
       ELSE IF k # {} THEN Exec(st, q, a, ctx, h.w, BMethod(i, h.h))
       ELSE IF x.na # "" THEN Exec(st, q, a, ctx, x.naw, BMethod(i, x.na))
       ELSE Exec(st, q, a, ctx, <<>>, BMethod(i, "#notallowed"))

\* The handler with the label l, or one of the built-in ones.
CallHandler(st, q, a, ctx, i, l) ==
    IF l = "#options" THEN R(Write(a, 200, AllowOf(st, i)), TRUE)
    ELSE IF l = "#notallowed" THEN R(Write(a, 405, AllowOf(st, i)), TRUE)
    ELSE LET a1 == Ev(st, q, a, ctx \/ WithCtx(l), "h", l, "", 0, FALSE)
             b == Beh(q, l)
         IN IF b = "F" THEN R(a1, Ch(l, 1) \in {"=", "-"})
            ELSE IF b = "panic" THEN R([a1 EXCEPT !.dead = TRUE], TRUE)
            ELSE R(Write(Nested(st, q, a1, ctx \/ WithCtx(l), l, "", 0), 200, ""), TRUE)

CallNotFound(st, q, a, ctx, l) ==
    LET a1 == Ev(st, q, a, ctx, "nf", l, "", 0, FALSE) IN
    IF Beh(q, l) = "F" THEN R(a1, FALSE)
    ELSE R(Write(Nested(st, q, a1, ctx, l, "", 0), 404, ""), TRUE)

\* net/http's redirect escapes the characters outside of ASCII, in lower case.
RECURSIVE HexEscaped(_)
HexEscaped(u) == IF u = "" THEN ""
                 ELSE (IF Ch(u, 1) \in DOMAIN EscTable THEN ToLower(EscTable[Ch(u, 1)]) ELSE Ch(u, 1))
                      \o HexEscaped(From(u, 2))
Absolute(u) == HasPrefix(u, "http://") \/ HasPrefix(u, "https://")
\* The location that net/http makes of an absolute URL or of a rooted one.
Location(u) ==
    LET i == Idx(u, "?")
        p == IF i = 0 THEN u ELSE Sub(u, 1, i - 1)
        c == Clean(p)
    IN IF Absolute(u) \/ HasPrefix(u, "//") \/ ~Unesc(p).ok THEN HexEscaped(u)
       ELSE HexEscaped(c \o (IF HasSuffix(p, "/") /\ c # "/" THEN "/" ELSE "")
                       \o (IF i = 0 THEN "" ELSE From(u, i)))
CallRedirect(st, q, a, ctx, l, u, c) ==
    LET a1 == Ev(st, q, a, ctx, "rd", l, u, c, FALSE) IN
    IF Beh(q, l) = "F" THEN R(a1, FALSE)
    ELSE R(WriteLoc(Nested(st, q, a1, ctx, l, u, c), c, "", IF l = "#std" THEN Location(u) ELSE ""), TRUE)

Base(st, q, a, ctx, b) ==
    CASE b.k = "rpass" -> RouterPass(st, q, a, ctx)
      [] b.k = "recv" -> Receive(st, q, a, ctx, b.i)
      [] b.k = "pass" -> Pass(st, q, a, ctx, b.i)
      [] b.k = "handle" -> Handle(st, q, a, ctx, b.i)
      [] b.k = "method" -> CallHandler(st, q, a, ctx, b.i, b.h)
      [] b.k = "nf" -> CallNotFound(st, q, a, ctx, b.h)
      [] b.k = "rd" -> CallRedirect(st, q, a, ctx, b.h, b.u, b.c)

Exec(st, q, a, ctx, mws, b) ==
    IF mws = <<>> THEN Base(st, q, a, ctx, b)
    ELSE LET l == LastOf(mws)
             inner == ctx \/ HttpMw(l)
             d == Beh(q, l)
             a1 == Ev(st, q, a, inner, "in", l, b.u, b.c, FALSE)
             a2 == IF d = "set" THEN [a1 EXCEPT !.keys = Append(@, [k |-> "k", v |-> l])]
                   ELSE IF d = "own" THEN [a1 EXCEPT !.keys = Append(@, [k |-> l, v |-> l])]
                   ELSE Nested(st, q, a1, inner, l, b.u, b.c)
             r == Exec(st, q, a2, inner, FrontOf(mws), b)
         IN IF d = "stopT" THEN R(Write(a1, 203, ""), TRUE)
            ELSE IF d = "stopF" THEN R(a1, HttpMw(l))
            ELSE LET res == IF d = "forceT" /\ ~HttpMw(l) THEN TRUE
                            ELSE IF d = "forceF" /\ ~HttpMw(l) THEN FALSE
                            ELSE r.res
                 IN R(Ev(st, q, r.a, inner, "out", l, b.u, b.c, r.res /\ ~HttpMw(l)), res)

-----------------------------------------------------------------------------
(* Entries *)

Start(q, r) ==
    LET p == WorkPath(q.path, q.rawpath) IN
    [path |-> p.path, raw |-> p.raw, unclean |-> p.unclean, idx |-> 0, sub |-> FALSE,
     vals |-> <<>>, r |-> r, keys |-> <<>>, ev |-> <<>>, w |-> <<>>, dead |-> FALSE]

OrNotFound(st, q, r) == IF r.res THEN r ELSE NotFound(st, q, r.a, FALSE)

ServeRouter(st, q) == OrNotFound(st, q, Exec(st, q, Start(q, 0), FALSE, st.ps, BPassRouter))

ServeHost(st, q, i) ==
    LET a == Start(q, i)
        h == ReqHost(q)
        m == IF h = "" THEN [ok |-> FALSE] ELSE Match(st.n[i].t, h, <<>>)
    IN IF ~m.ok THEN NotFound(st, q, a, FALSE)
       ELSE OrNotFound(st, q, Exec(st, q, [a EXCEPT !.vals = m.vals], FALSE, <<>>, BRecv(i)))

ServeResource(st, q, i) ==
    LET a0 == Start(q, i)
        a1 == [a0 EXCEPT !.idx = Next1(a0).idx]
        n == Next1(a1)
        a2 == [a1 EXCEPT !.idx = n.idx]
        m == IF n.ok /\ n.seg # "" THEN Match(st.n[i].t, n.seg, <<>>) ELSE [ok |-> FALSE]
    IN IF st.n[i].root
       THEN OrNotFound(st, q, Exec(st, q, a1, FALSE, <<>>, BRecv(i)))
       ELSE IF ~n.ok THEN R(Write(a2, 400, ""), TRUE)
       ELSE IF ~m.ok THEN NotFound(st, q, a2, FALSE)
       ELSE OrNotFound(st, q, Exec(st, q, [a2 EXCEPT !.vals = m.vals], FALSE, <<>>, BRecv(i)))

\* entry: 0 is the router, otherwise a responder
Serve(st, q, entry) ==
    IF entry = 0 THEN ServeRouter(st, q)
    ELSE IF IsHost(st, entry) THEN ServeHost(st, q, entry)
    ELSE ServeResource(st, q, entry)

\* What is observed at the moments of the events of a request that has been served.
Views(st, q, a) ==
    LET rs == {a.ev[k].v.r : k \in DOMAIN a.ev} \ {0}
        chains == TLCEval([i \in rs |-> Chain(st, i)])
        hosts == TLCEval([i \in rs |-> Chain(st, HostOf(st, i))])
        rems == TLCEval([m \in {<<a.ev[k].v.r, a.ev[k].v.idx>> : k \in DOMAIN a.ev} |->
                         RemainingPath(st, [a EXCEPT !.r = m[1], !.idx = m[2]])])
        View(m) ==
            IF m.blind THEN NoView
            ELSE [g |-> [k \in DOMAIN q.names |-> Val(m.vals, q.names[k]).v],
                  rem |-> rems[<<m.r, m.idx>>],
                  data |-> IF m.r = 0 THEN "" ELSE st.n[m.r].data,
                  impl |-> IF m.r = 0 THEN "" ELSE st.n[m.r].impl,
                  host |-> IF m.r = 0 THEN <<>> ELSE hosts[m.r],
                  cur |-> IF m.r = 0 THEN <<>> ELSE IF IsRes(st, m.r) THEN chains[m.r] ELSE <<>>,
                  keys |-> [k \in DOMAIN q.keys |-> Val(m.keys, q.keys[k]).v],
                  ctx |-> m.ctx]
    IN [k \in DOMAIN a.ev |-> [a.ev[k] EXCEPT !.v = View(@)]]
Served(st, q, entry) ==
    LET x == Serve(st, q, entry) IN [x EXCEPT !.a.ev = Views(st, q, x.a)]
=============================================================================
