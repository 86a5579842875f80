-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* The public operations as data: Do(st, o) is the outcome of the operation *)
(* o in the state st, and Out(st, o, r) is what the caller observes besides *)
(* acceptance.  Operations refer to responders by the position of the       *)
(* operation which returned them (st.ref); 0 stands for the router or for   *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS Disp

RefOf(st, k) == IF k = 0 THEN 0 ELSE st.ref[k]

\* A list with a nil middleware is rejected.
BadMws(o) == "mws" \in DOMAIN o /\ "" \in Range(o.mws)

DoSet(st, i, o) == IF BadMws(o) THEN No(st) ELSE Apply1(st, i, o)

\* At a URL.  i = 0: the router.
DoSetAt(st, i, o) ==
    IF o.set = "Configuration"
    THEN LET f == IF i = 0 THEN RExisting(st, o.u) ELSE NRegistered(st, i, o.u) IN
         IF ~f.ok THEN No(st)
         ELSE IF f.ret # 0 THEN Ok(SetCfg(f.st, f.ret, o.cfg), 0)
         ELSE LET c == IF i # 0 THEN NResource(st, i, o.u, TRUE, o.cfg)
                       ELSE IF RFind(st, o.u).host THEN RHost(st, o.u, TRUE, o.cfg)
                       ELSE RResource(st, o.u, TRUE, o.cfg)
              IN [c EXCEPT !.ret = 0]
    ELSE IF o.set = "WrapHandlerOf"
    THEN LET f == IF i = 0 THEN RExisting(st, o.u) ELSE NRegistered(st, i, o.u) IN
         IF ~f.ok THEN No(st)
         ELSE IF f.ret = 0 THEN No(st)
         ELSE [DoSet(f.st, f.ret, o) EXCEPT !.ret = 0]
    ELSE LET f == IF i = 0 THEN RObtain(st, o.u) ELSE NResource(st, i, o.u, FALSE, <<>>) IN
         IF ~f.ok THEN No(f.st) ELSE [DoSet(f.st, f.ret, o) EXCEPT !.ret = 0]

DoSetSub(st, i, o) ==
    LET ids == IF i = 0 THEN AllOf(st) ELSE Subtree(st, i)
        r == ApplyToSubtree(st, ids, o)
        wraps == \E j \in ids : CanHandle(st, j)
    IN IF BadMws(o)
       THEN IF o.set = "WrapHandlerOf"
            THEN IF SplitMethods(o.methods) = <<>> \/ wraps THEN No(st) ELSE Ok(st, 0)
            ELSE IF ids = {} THEN Ok(st, 0) ELSE No(st)
       ELSE IF ~r.ok /\ ids = {} /\ o.set # "WrapHandlerOf" THEN Ok(st, 0)
       ELSE [r EXCEPT !.ret = 0]

\* Existing responder for the ...At and ...Of queries.
Queried(st, i, u) == IF i = 0 THEN RExisting(st, u) ELSE NRegistered(st, i, u)

Do(st, o) ==
    LET i == IF "i" \in DOMAIN o THEN RefOf(st, o.i) ELSE 0
        r == IF "r" \in DOMAIN o THEN RefOf(st, o.r) ELSE 0
    IN CASE "nil" \in DOMAIN o -> No(st)       \* a nil host, resource or implementation
         [] o.op = "MkHost" -> MkHost(st, o.u, o.impl, o.uc, o.cfg)
         [] o.op = "MkRes" -> MkRes(st, o.u, o.impl, o.uc, o.cfg)
         [] o.op = "Host" -> RHost(st, o.u, o.uc, o.cfg)
         [] o.op = "Resource" ->
                IF i = 0 THEN RResource(st, o.u, o.uc, o.cfg) ELSE NResource(st, i, o.u, o.uc, o.cfg)
         [] o.op = "RegisterHost" -> RRegisterHost(st, r)
         [] o.op = "Register" -> IF i = 0 THEN RRegister(st, r) ELSE NRegister(st, i, r)
         [] o.op = "RegisterUnder" ->
                IF i = 0 THEN RRegisterUnder(st, o.u, r) ELSE NRegisterUnder(st, i, o.u, r)
         [] o.op = "Registered" -> IF i = 0 THEN RRegistered(st, o.u) ELSE NRegistered(st, i, o.u)
         [] o.op = "RegisteredHost" -> RRegisteredHost(st, o.u)
         [] o.op = "HostNamed" -> Ok(st, HostNamed(st, o.n))
         [] o.op = "ChildNamed" -> Ok(st, ChildNamed(st, i, o.n))
         [] o.op = "ParentOf" ->
                LET p == st.n[i].parent IN Ok(st, IF p > 0 /\ IsRes(st, p) THEN p ELSE 0)
         [] o.op = "HostOf" -> Ok(st, HostOf(st, i))
         [] o.op = "Set" -> [DoSet(st, i, o) EXCEPT !.ret = 0]
         [] o.op = "SetAt" -> DoSetAt(st, i, o)
         [] o.op = "SetSub" -> DoSetSub(st, i, o)
         [] o.op = "GetAt" ->
                LET f == Queried(st, i, o.u) IN
                IF ~f.ok THEN No(st) ELSE IF f.ret = 0 THEN No(f.st)
                ELSE IF o.get = "Handler" /\ SplitMethods(o.methods) = <<>> THEN No(f.st)
                ELSE Ok(f.st, 0)
         [] o.op = "RWrapPasser" ->
                IF o.mws = <<>> THEN No(st) ELSE IF BadMws(o) THEN No(st)
                ELSE Ok([st EXCEPT !.ps = @ \o o.mws], 0)
         [] o.op = "PRC" ->
                IF o.code \notin {301, 308} THEN No(st) ELSE Ok([st EXCEPT !.prc = o.code], 0)
         [] o.op = "SetCRH" ->
                IF o.h = "" THEN No(st) ELSE Ok([st EXCEPT !.crd = o.h, !.rdw = <<>>], 0)
         [] o.op = "WrapCRH" ->
                IF o.mws = <<>> THEN No(st) ELSE IF BadMws(o) THEN No(st)
                ELSE Ok([st EXCEPT !.rdw = @ \o o.mws], 0)
         [] o.op = "SetNF" ->
                IF o.h = "" THEN No(st) ELSE Ok([st EXCEPT !.nfh = o.h, !.nf = <<>>], 0)
         [] o.op = "WrapNF" ->
                IF o.mws = <<>> THEN No(st) ELSE IF BadMws(o) THEN No(st)
                ELSE Ok([st EXCEPT !.nf = @ \o o.mws], 0)
         [] o.op \in {"Match", "Apply"} -> IF Parse(o.t).ok THEN Ok(st, 0) ELSE No(st)
         [] o.op = "Sim" -> IF Parse(o.t).ok /\ Parse(o.t2).ok THEN Ok(st, 0) ELSE No(st)
         [] OTHER -> Ok(st, 0)

-----------------------------------------------------------------------------
(* Dumps of responders *)

CfgBits == <<"sub", "sec", "red", "ts", "strict", "lts", "lup", "asis">>
CfgList(cf) == LET c == AsConfig(cf) IN SelectSeq(CfgBits, LAMBDA f : f \in c)
MethodsOf(x) == SelectSeq(MethodOrder, LAMBDA m : MethodIdx(x.mh, m) # {})

RECURSIVE Dump(_, _)
Dump(st, i) ==
    LET x == st.n[i] IN
    [kind |-> x.kind, t |-> TStr(x.t), name |-> x.t.name, cfg |-> CfgList(x.cf),
     data |-> x.data, impl |-> x.impl, ms |-> MethodsOf(x),
     prc |-> IF x.prc > 0 THEN x.prc ELSE st.prc,
     lk |-> TRUE,
     st |-> {Dump(st, j) : j \in x.st},
     pt |-> [k \in DOMAIN x.pt |-> Dump(st, x.pt[k])],
     wl |-> IF x.wl = 0 THEN <<>> ELSE <<Dump(st, x.wl)>>]
RouterDump(st) ==
    [st |-> {Dump(st, j) : j \in st.hs},
     pt |-> [k \in DOMAIN st.hp |-> Dump(st, st.hp[k])],
     root |-> IF st.root = 0 THEN <<>> ELSE <<Dump(st, st.root)>>]

\* The recorded dump in the same form.
RECURSIVE Norm(_)
Norm(d) == [d EXCEPT !.st = {Norm(@[k]) : k \in DOMAIN @},
                     !.pt = [k \in DOMAIN @ |-> Norm(@[k])],
                     !.wl = [k \in DOMAIN @ |-> Norm(@[k])]]
NormRouter(d) == [d EXCEPT !.st = {Norm(@[k]) : k \in DOMAIN @},
                           !.pt = [k \in DOMAIN @ |-> Norm(@[k])],
                           !.root = [k \in DOMAIN @ |-> Norm(@[k])]]

-----------------------------------------------------------------------------
(* Handlers returned by queries: labels in the order in which they would run *)

WithWraps(mws, h) == Append(Reverse(mws), h)
HandlerLabels(st, i, methods) ==      \* <<>>: no handler
    LET m == SplitMethods(methods)[1]
        x == st.n[i]
        k == MethodIdx(x.mh, m)
    IN IF ~x.has THEN <<>>
       ELSE IF m = "!"
       THEN IF x.na = "" THEN <<"#notallowed">> ELSE WithWraps(x.naw, x.na)
       ELSE IF k = {} THEN <<>>
       ELSE LET h == x.mh[CHOOSE j \in k : TRUE] IN WithWraps(h.w, h.h)
RedirectLabels(st, i) ==
    IF st.n[i].rdh = "" THEN WithWraps(st.rdw, st.crd) ELSE WithWraps(st.n[i].rdw, st.n[i].rdh)

GetOf(st, i, get, methods) ==
    CASE get = "SharedData" -> <<st.n[i].data>>
      [] get = "Implementation" -> <<st.n[i].impl>>
      [] get = "Configuration" -> CfgList(st.n[i].cf)
      [] get = "RedirectCode" -> <<ToString(IF st.n[i].prc > 0 THEN st.n[i].prc ELSE st.prc)>>
      [] get = "Handler" -> HandlerLabels(st, i, methods)
      [] get = "RedirectHandler" -> RedirectLabels(st, i)

-----------------------------------------------------------------------------
(* Requests *)

Outcome(x) == [ev |-> x.a.ev, w |-> x.a.w, dead |-> x.a.dead, kept |-> TRUE]
ReqOut(st, q, entry) ==
    LET x == Served(st, q, entry)
        nests == SelectSeq(x.a.ev, LAMBDA e : e.e = "h2")
    IN [ev |-> x.a.ev, w |-> x.a.w, dead |-> x.a.dead, kept |-> TRUE,
        nest |-> [k \in DOMAIN nests |-> Outcome(Served(st, q.nest[1], 0))]]

-----------------------------------------------------------------------------
(* What the caller of an operation observes besides ok and the responder *)

SetName(t, name) == [t EXCEPT !.name = name]
NoneHere == "none0"          \* not a value name of any template
TmplOut(t) ==
    [hvn |-> <<NoneHere \in Range(ValueNames(t)), ValueNames(t) # <<>>>>,
     named |-> LET r == SetName(t, "re:named") IN <<r.name, TStr(r), Content(r)>>,
     cleared |-> <<"", "", "">>,
     str |-> TStr(t), name |-> t.name, content |-> Content(t), unesc |-> UnescapedContent(t),
     static |-> IsStatic(t), wild |-> IsWildcard(t), pattern |-> HasPattern(t),
     vns |-> ValueNames(t)]

Out(st, o, r) ==      \* r: the result of Do
    LET i == IF "i" \in DOMAIN o THEN RefOf(st, o.i) ELSE 0 IN
    CASE o.op = "GetAt" -> IF r.ok THEN GetOf(r.st, Queried(st, i, o.u).ret, o.get, o.methods) ELSE <<>>
      [] o.op = "Get" -> GetOf(st, i, o.get, o.methods)
      [] o.op = "Has" ->
            LET x == RefOf(st, o.r) IN
            IF i = 0 THEN x \in st.hs \cup Range(st.hp) ELSE x \in Children(st, i)
      [] o.op = "URL" -> URLOf(st, i, o.vals)
      [] o.op = "Req" -> ReqOut(st, o.q, i)
      [] o.op = "Conc" -> [k \in DOMAIN o.qs |-> ReqOut(st, o.qs[k], 0)]
      [] o.op = "Parse" -> LET p == Parse(o.t) IN IF p.ok THEN <<TmplOut(p.t)>> ELSE <<>>
      [] o.op = "Sim" -> LET s == Similarity(Parse(o.t).t, Parse(o.t2).t) IN
                         [s |-> s, e |-> <<"different", "value names", "names", "none">>[s + 1]]
      [] o.op = "Vals" -> [k \in DOMAIN o.names |-> Val(o.vals, o.names[k]).v]
      [] o.op = "Common" -> [prc |-> st.prc, nf |-> WithWraps(st.nf, st.nfh),
                             rd |-> WithWraps(st.rdw, st.crd)]
      [] o.op = "Match" ->
            LET m == Match(Parse(o.t).t, o.s, o.vals) IN
            [ok |-> m.ok, g |-> [k \in DOMAIN o.names |-> Val(m.vals, o.names[k]).v]]
      [] o.op = "Apply" -> LET a == Apply(Parse(o.t).t, o.vals, o.ign) IN
                           IF a.ok THEN <<a.s>> ELSE <<>>
      [] OTHER -> <<>>
=============================================================================
