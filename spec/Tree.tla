-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The registration side of a router: hosts, resources, and everything that *)
(* can be set on them.                                                      *)
(*                                                                         *)
(* A state st has                                                          *)
(*   n      a sequence of responders (hosts and resources), identified by   *)
(*          their positions; parent 0 = none, -1 = the router               *)
(*   hs     the set of static hosts;   hp   pattern hosts, in the order of  *)
(*   root   the root resource or 0          registration                    *)
(*   ps     middlewares of the router's passer (last one is the outermost)  *)
(*   prc    the common permanent redirect code                             *)
(*   crd, rdw   the common redirect handler and its middlewares             *)
(*   nfh, nf    the handler of not found resources and its middlewares      *)
(*   ref    what the operations so far returned (0 = nothing)              *)
(*   kf     a known finding has been met: names of hosts may repeat         *)
(*                                                                         *)
(* Operations are total functions from a state and arguments to             *)
(*   [ok, st, ret, dirty]: ok is FALSE when the call is rejected; dirty     *)
(* means that a rejected call may have had a partial effect.                *)
(***************************************************************************)
EXTENDS Tmpl, Paths, FiniteSets

\* Implementations by type name: [ms |-> sequence of methods, na |-> BOOLEAN].
CONSTANT Impls

RootTmpl == [name |-> "", segs |-> <<[k |-> "s", s |-> "/"]>>, wc |-> 0]

NoRed == [url |-> "", code |-> 0]
NodeOf(kind, t) ==
    [kind |-> kind, t |-> t, root |-> FALSE, parent |-> 0,
     st |-> {}, pt |-> <<>>, wl |-> 0,
     cf |-> {},                       \* configuration flags
     has |-> FALSE,                   \* a request handler exists
     mh |-> <<>>,                     \* sequence of [m, h]: method handlers
     na |-> "", naw |-> <<>>,         \* not allowed method handler and its wraps
     hw |-> <<>>, pw |-> <<>>,        \* wraps of the request handler and passer
     red |-> NoRed, any |-> NoRed,    \* request redirector, any request redirector
     prc |-> 0,
     rdh |-> "", rdw |-> <<>>,        \* own redirect handler and its wraps
     data |-> "", impl |-> "",
     urlt |-> [has |-> FALSE, host |-> "", prefix |-> ""]]

InitTree ==
    [n |-> <<>>, hs |-> {}, hp |-> <<>>, root |-> 0, ps |-> <<>>,
     prc |-> 308, crd |-> "#std", rdw |-> <<>>, nfh |-> "#nf", nf |-> <<>>, ref |-> <<>>,
     kf |-> FALSE]

Ok(st, ret) == [ok |-> TRUE, st |-> st, ret |-> ret, dirty |-> FALSE, kf |-> FALSE]
No(st) == [ok |-> FALSE, st |-> st, ret |-> 0, dirty |-> FALSE, kf |-> FALSE]
Dirty(st) == [ok |-> FALSE, st |-> st, ret |-> 0, dirty |-> TRUE, kf |-> FALSE]
\* The call should be rejected, but it is known to be accepted (a known finding).
Known(r) == [r EXCEPT !.kf = TRUE, !.st.kf = TRUE]

IsHost(st, i) == st.n[i].kind = "host"
IsRes(st, i) == st.n[i].kind = "res"
CanHandle(st, i) == st.n[i].has /\ st.n[i].mh # <<>>
Children(st, i) == LET x == st.n[i] IN
    x.st \cup Range(x.pt) \cup (IF x.wl = 0 THEN {} ELSE {x.wl})

\* The responder and everything above it, up to the host or the topmost one.
RECURSIVE PathUp(_, _)
PathUp(st, i) == IF i <= 0 THEN <<>> ELSE <<i>> \o PathUp(st, st.n[i].parent)
HostOf(st, i) == LET h == SelectSeq(PathUp(st, i), LAMBDA j : IsHost(st, j)) IN
                 IF h = <<>> THEN 0 ELSE h[1]
TopOf(st, i) == LastOf(PathUp(st, i))
UnderRouter(st, i) == st.n[TopOf(st, i)].parent = -1

RECURSIVE Descend(_, _)
Descend(st, todo) ==
    IF todo = {} THEN {}
    ELSE todo \cup Descend(st, UNION {Children(st, i) : i \in todo})
Subtree(st, i) == Descend(st, Children(st, i))
Tops(st) == st.hs \cup Range(st.hp) \cup (IF st.root = 0 THEN {} ELSE {st.root})
AllOf(st) == Descend(st, Tops(st))

-----------------------------------------------------------------------------
(* Configuration flags *)

AsFlags(cfg) ==      \* cfg: sequence of the fields that are TRUE
    LET c == Range(cfg) IN
    (c \cap {"sub", "sec", "ts", "strict", "lts", "lup"})
    \cup (IF "red" \in c THEN {"sec", "red"} ELSE {})
    \cup (IF "asis" \in c THEN {"lts", "lup"} ELSE {})
AsConfig(cf) ==
    (cf \cap {"sub", "sec", "red", "ts", "strict", "lts", "lup"})
    \cup (IF {"lts", "lup"} \subseteq cf THEN {"asis"} ELSE {})
\* Trailing slash related fields have no meaning for the root.
RootCfg(cfg) == LET c == Range(cfg) IN
    (c \ {"ts", "lts", "strict", "asis"}) \cup (IF "asis" \in c THEN {"lup"} ELSE {})

Bits(secure, tslash) == (IF secure THEN {"sec"} ELSE {}) \cup (IF tslash THEN {"ts"} ELSE {})
Configure(st, i, secure, tslash, flags) ==
    [st EXCEPT !.n[i].cf = @ \cup {"act"} \cup Bits(secure, tslash) \cup flags]

\* "same", "dormant" (never configured) or "conflict"
Compat(st, i, secure, tslash, flags) ==
    LET cf == st.n[i].cf IN
    IF "act" \notin cf THEN "dormant"
    ELSE IF ("sec" \in cf) # secure THEN "conflict"
    ELSE IF "lts" \notin cf /\ ("ts" \in cf) # tslash THEN "conflict"
    ELSE IF ~(flags \subseteq cf) THEN "conflict"
    ELSE "same"

\* Find-or-create on an existing responder.
Adopt(st, i, secure, tslash, flags) ==
    LET c == Compat(st, i, secure, tslash, flags) IN
    IF c = "same" THEN Ok(st, i)
    ELSE IF c = "dormant" THEN Ok(Configure(st, i, secure, tslash, flags), i)
    ELSE No(st)

-----------------------------------------------------------------------------
(* Lookup among the children *)

ChildNamed(st, i, name) ==
    LET c == {j \in Children(st, i) : st.n[j].t.name = name} IN
    IF name = "" \/ c = {} THEN 0 ELSE CHOOSE j \in c : TRUE

\* [err, id]: the child with the template; an error if a child's template
\* differs only in names.
RECURSIVE FindPat(_, _, _, _)
FindPat(st, list, k, t) ==
    IF k > Len(list) THEN [err |-> FALSE, id |-> 0]
    ELSE LET s == Similarity(st.n[list[k]].t, t) IN
         IF s \in {1, 2} THEN [err |-> TRUE, id |-> 0]
         ELSE IF s = 3 THEN [err |-> FALSE, id |-> list[k]]
         ELSE FindPat(st, list, k + 1, t)

FindStatic(st, set, t) ==
    LET c == {j \in set : StaticText(st.n[j].t) = StaticText(t)} IN
    IF c = {} THEN [err |-> FALSE, id |-> 0]
    ELSE LET j == CHOOSE x \in c : TRUE IN
         IF st.n[j].t.name = t.name THEN [err |-> FALSE, id |-> j]
         ELSE [err |-> TRUE, id |-> 0]

ChildWith(st, i, t) ==
    IF IsStatic(t) THEN FindStatic(st, st.n[i].st, t)
    ELSE IF IsWildcard(t)
    THEN IF st.n[i].wl = 0 THEN [err |-> FALSE, id |-> 0] ELSE FindPat(st, <<st.n[i].wl>>, 1, t)
    ELSE FindPat(st, st.n[i].pt, 1, t)

HostWith(st, t) ==
    IF IsStatic(t) THEN FindStatic(st, st.hs, t) ELSE FindPat(st, st.hp, 1, t)

HostNamed(st, name) ==
    LET c == {j \in st.hs \cup Range(st.hp) : st.n[j].t.name = name} IN
    IF name = "" \/ c = {} THEN 0 ELSE CHOOSE j \in c : TRUE

-----------------------------------------------------------------------------
(* Uniqueness of the names in a URL *)

NameClash(t, u) ==      \* the new template t below a responder with template u
    \/ t.name # "" /\ t.name = u.name
    \/ Range(ValueNames(t)) \cap Range(ValueNames(u)) # {}
FreshIn(st, i, t) == \A j \in Range(PathUp(st, i)) : ~NameClash(t, st.n[j].t)
\* ... of everything in the subtree of the resource r
FreshSubtree(st, i, r) == \A j \in Subtree(st, r) : FreshIn(st, i, st.n[j].t)

-----------------------------------------------------------------------------
(* Attaching *)

Attach(st, p, c) ==
    LET t == st.n[c].t
        s1 == IF IsStatic(t) THEN [st EXCEPT !.n[p].st = @ \cup {c}]
              ELSE IF IsWildcard(t) THEN [st EXCEPT !.n[p].wl = c]
              ELSE [st EXCEPT !.n[p].pt = Append(@, c)]
    IN [s1 EXCEPT !.n[c].parent = p]

Swap(st, p, old, new) ==
    LET t == st.n[old].t
        s1 == IF IsStatic(t) THEN [st EXCEPT !.n[p].st = (@ \ {old}) \cup {new}]
              ELSE IF IsWildcard(t) THEN [st EXCEPT !.n[p].wl = new]
              ELSE [st EXCEPT !.n[p].pt = [k \in DOMAIN @ |-> IF @[k] = old THEN new ELSE @[k]]]
    IN [s1 EXCEPT !.n[new].parent = p, !.n[old].parent = 0]

AttachHost(st, h) ==
    LET s1 == IF IsStatic(st.n[h].t) THEN [st EXCEPT !.hs = @ \cup {h}]
              ELSE [st EXCEPT !.hp = Append(@, h)]
    IN [s1 EXCEPT !.n[h].parent = -1]

NewNode(st, node) == [st EXCEPT !.n = Append(@, node)]
EnsureRoot(st) ==
    IF st.root # 0 THEN st
    ELSE LET i == Len(st.n) + 1 IN
         [st EXCEPT !.n = Append(@, [NodeOf("res", RootTmpl) EXCEPT !.root = TRUE, !.parent = -1]),
                    !.root = i]

-----------------------------------------------------------------------------
(* Path segments: what exists and what is to be created *)

\* [ok, old, new]: old is the last existing responder, new is the sequence of
\* the templates of the missing ones.
RECURSIVE WalkSegs(_, _, _, _)
WalkSegs(st, old, new, segs) ==
    IF segs = <<>> THEN [ok |-> TRUE, old |-> old, new |-> new]
    ELSE LET p == Parse(Head(segs)) IN
    IF ~p.ok THEN [ok |-> FALSE]
    ELSE LET f == IF new = <<>> THEN ChildWith(st, old, p.t) ELSE [err |-> FALSE, id |-> 0] IN
    IF f.err THEN [ok |-> FALSE]
    ELSE IF f.id # 0 THEN WalkSegs(st, f.id, <<>>, Tail(segs))
    ELSE IF \/ ~FreshIn(st, old, p.t)
            \/ \E k \in DOMAIN new : NameClash(p.t, new[k])
            \/ new = <<>> /\ ChildNamed(st, old, p.t.name) # 0
         THEN [ok |-> FALSE]
    ELSE WalkSegs(st, old, Append(new, p.t), Tail(segs))

WalkPath(st, i, path) ==
    LET p == PathSegs(path) IN
    IF ~p.ok THEN [ok |-> FALSE]
    ELSE IF p.root
    THEN IF IsHost(st, i) THEN [ok |-> TRUE, old |-> i, new |-> <<>>] ELSE [ok |-> FALSE]
    ELSE WalkSegs(st, i, <<>>, p.segs)

\* Create the chain of the missing resources below old; the last one is the
\* last node of the new state.
RECURSIVE Grow(_, _, _)
Grow(st, old, new) ==
    IF new = <<>> THEN st
    ELSE LET s1 == NewNode(st, NodeOf("res", Head(new)))
             i == Len(s1.n)
         IN Grow(Attach(s1, old, i), i, Tail(new))

-----------------------------------------------------------------------------
(* Merging of a resource into the children of a responder *)

RECURSIVE Keep(_, _, _)
RECURSIVE PassChildren(_, _, _)

\* All children of the responder from become children of the responder to.
PassAll(st, from, to) ==
    LET x == st.n[from]
        order == SetToSeq(x.st) \o x.pt \o (IF x.wl = 0 THEN <<>> ELSE <<x.wl>>)
        r == PassChildren(st, order, to)
    IN IF ~r.ok THEN Dirty(st)
       ELSE Ok([r.st EXCEPT !.n[from].st = {}, !.n[from].pt = <<>>, !.n[from].wl = 0], 0)

PassChildren(st, order, to) ==
    IF order = <<>> THEN Ok(st, 0)
    ELSE LET r == Keep(st, to, Head(order)) IN
         IF ~r.ok THEN Dirty(st) ELSE PassChildren(r.st, Tail(order), to)

Keep(st, p, r) ==
    LET f == ChildWith(st, p, st.n[r].t)
        old == f.id
        rc == st.n[r].cf
    IN IF f.err THEN No(st)
       ELSE IF old = 0
       THEN IF ChildNamed(st, p, st.n[r].t.name) # 0 \/ st.n[r].root THEN No(st)
            ELSE Ok(Attach(st, p, r), 0)
       ELSE IF Compat(st, old, "sec" \in rc, "ts" \in rc, rc) = "conflict" THEN No(st)
       ELSE IF ~CanHandle(st, r) THEN PassAll(st, r, old)
       ELSE IF ~CanHandle(st, old)
       THEN LET m == PassAll(st, old, r) IN
            IF ~m.ok THEN m ELSE Ok(Swap(m.st, p, old, r), 0)
       ELSE No(st)

KeepUnder(st, i, prefix, r) ==
    LET w == WalkPath(st, i, prefix)
        t == st.n[r].t
    IN IF ~w.ok THEN No(st)
       ELSE IF ~FreshIn(st, w.old, t) \/ ~FreshSubtree(st, w.old, r) THEN No(st)
       ELSE IF w.new # <<>>
       THEN IF \E k \in DOMAIN w.new : \/ NameClash(t, w.new[k])
                                       \/ \E j \in Subtree(st, r) : NameClash(st.n[j].t, w.new[k])
            THEN No(st)
            ELSE IF st.n[r].root THEN No(st)      \* only the router has a root
            ELSE LET s1 == Grow(st, w.old, w.new) IN Ok(Attach(s1, Len(s1.n), r), 0)
       ELSE Keep(st, w.old, r)

-----------------------------------------------------------------------------
(* Construction of unregistered responders *)

ImplNode(node, impl) ==     \* impl: [type, label] or type = ""
    IF impl.type = "" THEN node
    ELSE LET d == Impls[impl.type]
             set == d.ms # <<>> \/ d.na
             auto == d.ms # <<>> /\ "OPTIONS" \notin Range(d.ms)
             H(m) == [m |-> m, h |-> impl.label \o ":" \o m, w |-> <<>>]
         IN IF ~set THEN [node EXCEPT !.impl = impl.label]
            ELSE [node EXCEPT !.impl = impl.label, !.has = TRUE,
                    !.mh = [k \in DOMAIN d.ms |-> H(d.ms[k])]
                           \o (IF auto THEN <<[m |-> "OPTIONS", h |-> "#options", w |-> <<>>]>> ELSE <<>>),
                    !.na = IF d.na THEN impl.label \o ":!" ELSE "", !.naw = <<>>]

NoImpl == [type |-> "", label |-> ""]

MkHost(st, u, impl, useCfg, cfg) ==
    LET h == SplitHost(u)
        p == IF h.ok /\ h.host # "" THEN Parse(h.host) ELSE Bad
    IN IF ~h.ok \/ ~p.ok THEN No(st)
       ELSE IF IsWildcard(p.t) THEN No(st)
       ELSE IF useCfg /\ "red" \in Range(cfg) /\ ~h.secure THEN No(st)
       ELSE LET flags == IF useCfg THEN AsFlags(SetToSeq(Range(cfg) \ {"sec", "ts"})) ELSE {}
                x == [NodeOf("host", p.t) EXCEPT !.cf = {"act"} \cup Bits(h.secure, h.tslash) \cup flags]
                s1 == NewNode(st, ImplNode(x, impl))
            IN Ok(s1, Len(s1.n))

MkRes(st, u, impl, useCfg, cfg) ==
    LET s == SplitURL(u)
        isRoot == s.ok /\ s.last = "/" /\ s.prefix = ""
                  /\ (SplitHostPath(u).path = "/" \/ SplitHostPath(u).path \in {"%2f", "%2F"})
        p == IF ~s.ok THEN Bad ELSE IF isRoot THEN [ok |-> TRUE, t |-> RootTmpl] ELSE Parse(s.last)
    IN IF ~s.ok \/ ~p.ok THEN No(st)
       ELSE IF isRoot /\ s.host # "" THEN No(st)
       ELSE IF useCfg /\ "red" \in Range(cfg) /\ ~s.secure THEN No(st)
       ELSE LET ts == s.tslash /\ ~isRoot
                c0 == Range(cfg) \ {"sec", "ts"}
                flags == IF ~useCfg THEN {}
                         ELSE AsFlags(SetToSeq(IF isRoot THEN RootCfg(SetToSeq(c0)) ELSE c0))
                x == [NodeOf("res", p.t) EXCEPT
                        !.root = isRoot,
                        !.cf = {"act"} \cup Bits(s.secure, ts) \cup flags,
                        !.urlt = [has |-> s.host # "" \/ s.prefix # "", host |-> s.host, prefix |-> s.prefix]]
                s1 == NewNode(st, ImplNode(x, impl))
            IN Ok(s1, Len(s1.n))

-----------------------------------------------------------------------------
(* Operations of hosts and resources *)

NodePath(u) ==      \* the path template of a host's or resource's method
    LET h == SplitHostPath(u) IN
    IF ~h.ok \/ h.host # "" \/ h.path \in {"", "/"} THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, path |-> IF Ch(h.path, 1) = "/" THEN h.path ELSE "/" \o h.path,
          secure |-> h.secure, tslash |-> h.tslash]

\* Find or create.  w is the walk, flags is what the config adds.
FindOrGrow(st, w, secure, tslash, flags) ==
    IF ~w.ok THEN No(st)
    ELSE IF w.new = <<>> THEN Adopt(st, w.old, secure, tslash, flags)
    ELSE LET s1 == Grow(st, w.old, w.new) IN
         Ok(Configure(s1, Len(s1.n), secure, tslash, flags), Len(s1.n))

NResource(st, i, u, useCfg, cfg) ==
    LET p == NodePath(u) IN
    IF ~p.ok THEN No(st)
    ELSE IF useCfg /\ "red" \in Range(cfg) /\ ~p.secure THEN No(st)
    ELSE FindOrGrow(st, WalkPath(st, i, p.path), p.secure, p.tslash,
                    IF useCfg THEN AsFlags(cfg) ELSE {})

\* Lookup by path; a segment may be just a name.  [ok, id]
RECURSIVE Lookup(_, _, _)
Lookup(st, i, path) ==
    LET s == NextSeg(path) IN
    IF s.seg = "" THEN [ok |-> TrimPrefix(s.rest, "/") = "", id |-> i]
    ELSE LET nc == NameAndContent(s.seg) IN
    IF nc.content = ""
    THEN IF nc.name = "" THEN [ok |-> FALSE]
         ELSE LET c == ChildNamed(st, i, nc.name) IN
              IF c = 0 THEN [ok |-> TRUE, id |-> 0] ELSE Lookup(st, c, s.rest)
    ELSE LET p == Parse(s.seg) IN
         IF ~p.ok THEN [ok |-> FALSE]
         ELSE LET f == ChildWith(st, i, p.t) IN
              IF f.err THEN [ok |-> FALSE]
              ELSE IF f.id = 0 THEN [ok |-> TRUE, id |-> 0]
              ELSE Lookup(st, f.id, s.rest)
\* ... which is nothing if there are no segments at all.
LookupPath(st, i, path) ==
    LET s == NextSeg(path) IN
    IF s.seg = "" THEN [ok |-> TrimPrefix(s.rest, "/") = "", id |-> 0] ELSE Lookup(st, i, path)

NRegistered(st, i, u) ==
    LET h == SplitHostPath(u) IN
    IF ~h.ok \/ h.host # "" \/ h.path \in {"", "/"} THEN No(st)
    ELSE LET l == LookupPath(st, i, h.path) IN
         IF ~l.ok THEN No(st)
         ELSE IF l.id = 0 THEN Ok(st, 0)
         ELSE Adopt(st, l.id, h.secure, h.tslash, {})

\* The URL template of a resource against the place it is being registered at:
\* [ok, rest]: what remains of the path below the responder i.
RECURSIVE EatSegs(_, _, _)
EatSegs(st, ids, path) ==
    IF ids = <<>> THEN [ok |-> TRUE, rest |-> TrimPrefix(path, "/")]
    ELSE LET s == NextSeg(path)
             p == IF s.seg = "" THEN Bad ELSE Parse(s.seg)
         IN IF ~p.ok THEN [ok |-> FALSE]
            ELSE IF Similarity(st.n[Head(ids)].t, p.t) # 3 THEN [ok |-> FALSE]
            ELSE EatSegs(st, Tail(ids), s.rest)

Consume(st, i, host, path) ==
    LET ids == Reverse(PathUp(st, i))
        h == HostOf(st, i)
        p == IF host = "" THEN Bad ELSE Parse(host)
        hostOK == \/ host = ""
                  \/ h # 0 /\ p.ok /\ ~IsWildcard(p.t) /\ Similarity(st.n[h].t, p.t) = 3
        below == IF IsHost(st, ids[1]) \/ st.n[ids[1]].root THEN Tail(ids) ELSE ids
    IN IF ~hostOK THEN [ok |-> FALSE]
       ELSE IF IsHost(st, ids[1]) /\ Len(ids) = 1 /\ path \in {"", "/"} THEN [ok |-> TRUE, rest |-> ""]
       ELSE EatSegs(st, below, path)

Forget(st, r) == [st EXCEPT !.n[r].urlt = [has |-> FALSE, host |-> "", prefix |-> ""]]
WithSlash(p) == IF p # "" /\ Ch(p, 1) # "/" THEN "/" \o p ELSE p

Registrable(st, i, r) ==
    /\ r # 0 /\ ~st.n[r].root /\ st.n[r].parent = 0
    /\ r \notin Range(PathUp(st, i))      \* not below itself
    /\ FreshIn(st, i, st.n[r].t) /\ FreshSubtree(st, i, r)

NRegister(st, i, r) ==
    IF ~Registrable(st, i, r) THEN No(st)
    ELSE LET u == st.n[r].urlt
             s1 == Forget(st, r)
             c == IF u.has THEN Consume(st, i, u.host, u.prefix) ELSE [ok |-> TRUE, rest |-> ""]
         IN IF ~c.ok THEN No(s1)
            ELSE IF c.rest # "" THEN KeepUnder(s1, i, c.rest, r)
            ELSE Keep(s1, i, r)

NRegisterUnder(st, i, prefix0, r) ==
    IF ~Registrable(st, i, r) THEN No(st)
    ELSE IF prefix0 = "/" /\ ~IsHost(st, i) THEN No(st)
    ELSE LET p1 == IF prefix0 = "/" THEN "" ELSE WithSlash(prefix0)
             u == st.n[r].urlt
             s1 == Forget(st, r)
             p2 == IF u.has /\ p1 # "" /\ HasSuffix(p1, "/") THEN FrontOf(p1) ELSE p1
             up == WithSlash(u.prefix)
             c == IF Len(p2) > Len(up) THEN [ok |-> FALSE]
                  ELSE Consume(st, i, u.host, TrimSuffix(up, p2))
         IN IF u.has /\ (IF ~c.ok THEN TRUE ELSE c.rest # "") THEN No(s1)
            ELSE IF p2 # "" THEN KeepUnder(s1, i, p2, r)
            ELSE Keep(s1, i, r)

-----------------------------------------------------------------------------
(* Operations of the router *)

\* The host with the template: [ok, st, id, new].  A new host is not attached.
GetHost(st, u) ==
    LET h == SplitHost(u)
        p == IF h.ok /\ h.host # "" THEN Parse(h.host) ELSE Bad
    IN IF ~h.ok \/ ~p.ok THEN [ok |-> FALSE]
       ELSE IF IsWildcard(p.t) THEN [ok |-> FALSE]
       ELSE LET f == HostWith(st, p.t) IN
            IF f.err THEN [ok |-> FALSE]
            ELSE IF f.id # 0
            THEN [ok |-> TRUE, st |-> st, id |-> f.id, new |-> FALSE, secure |-> h.secure, tslash |-> h.tslash]
            ELSE LET s1 == NewNode(st, NodeOf("host", p.t)) IN
                 [ok |-> TRUE, st |-> s1, id |-> Len(s1.n), new |-> TRUE,
                  secure |-> h.secure, tslash |-> h.tslash]
RHost(st, u, useCfg, cfg) ==
    LET g == GetHost(st, u) IN
    IF ~g.ok THEN No(st)
    ELSE IF useCfg /\ "red" \in Range(cfg) /\ ~g.secure THEN No(st)
    ELSE LET flags == IF useCfg THEN AsFlags(cfg) ELSE {} IN
    IF ~g.new THEN LET a == Adopt(g.st, g.id, g.secure, g.tslash, flags) IN IF a.ok THEN a ELSE No(st)
    ELSE IF HostNamed(st, g.st.n[g.id].t.name) # 0 THEN No(st)
    ELSE Ok(AttachHost(Configure(g.st, g.id, g.secure, g.tslash, flags), g.id), g.id)

RRegisterHost(st, h) ==
    IF h = 0 THEN No(st)
    ELSE IF st.n[h].parent # 0 THEN No(st)
    ELSE LET f == HostWith(st, st.n[h].t)
             old == f.id
         IN IF f.err THEN No(st)
            ELSE IF old = 0
            THEN IF HostNamed(st, st.n[h].t.name) # 0 THEN No(st) ELSE Ok(AttachHost(st, h), 0)
            ELSE IF ~CanHandle(st, h) THEN PassAll(st, h, old)
            ELSE IF ~CanHandle(st, old)
            THEN LET m == PassAll(st, old, h) IN
                 IF ~m.ok THEN m
                 ELSE Ok([m.st EXCEPT
                            !.hs = IF old \in @ THEN (@ \ {old}) \cup {h} ELSE @,
                            !.hp = [k \in DOMAIN @ |-> IF @[k] = old THEN h ELSE @[k]],
                            !.n[h].parent = -1, !.n[old].parent = 0], 0)
            ELSE No(st)

\* Existing host by its template or name only: [ok, id]
FindHost(st, ht) ==
    LET nc == IF ht = "" THEN [ok |-> FALSE] ELSE NameAndContent(ht)
        p == IF ht = "" THEN Bad ELSE Parse(ht)
    IN IF ht = "" THEN [ok |-> FALSE]
       ELSE IF nc.ok /\ nc.name # "" /\ nc.content = ""
       THEN [ok |-> TRUE, id |-> HostNamed(st, nc.name)]
       ELSE IF ~p.ok THEN [ok |-> FALSE]
       ELSE IF IsWildcard(p.t) THEN [ok |-> FALSE]
       ELSE LET f == HostWith(st, p.t) IN
            IF f.err THEN [ok |-> FALSE] ELSE [ok |-> TRUE, id |-> f.id]

RRegisteredHost(st, u) ==
    LET h == SplitHost(u)
        f == IF h.ok THEN FindHost(st, h.host) ELSE [ok |-> FALSE]
    IN IF ~h.ok \/ ~f.ok THEN No(st)
       ELSE IF f.id = 0 THEN Ok(st, 0)
       ELSE Adopt(st, f.id, h.secure, h.tslash, {})

\* Find or create a resource of the router.
RResource(st, u, useCfg, cfg) ==
    LET h == SplitHostPath(u) IN
    IF ~h.ok \/ h.path = "" THEN No(st)
    ELSE IF useCfg /\ "red" \in Range(cfg) /\ ~h.secure THEN No(st)
    ELSE IF h.host # ""
    THEN LET g == GetHost(st, h.host) IN
         IF ~g.ok THEN No(st)
         ELSE LET w == WalkPath(g.st, g.id, h.path)
                  flags == IF useCfg THEN AsFlags(cfg) ELSE {}
                  r == FindOrGrow(g.st, w, h.secure, h.tslash, flags)
              IN IF ~r.ok THEN No(st)
                 ELSE IF ~g.new THEN r
                 ELSE IF HostNamed(st, g.st.n[g.id].t.name) # 0
                 THEN IF useCfg THEN Known(Ok(AttachHost(r.st, g.id), r.ret)) ELSE No(st)
                 ELSE Ok(AttachHost(r.st, g.id), r.ret)
    ELSE LET s1 == EnsureRoot(st)
             flags == IF ~useCfg THEN {}
                      ELSE IF h.path = "/" THEN AsFlags(SetToSeq(RootCfg(cfg))) ELSE AsFlags(cfg)
             r == IF h.path = "/" THEN Adopt(s1, s1.root, h.secure, FALSE, flags)
                  ELSE FindOrGrow(s1, WalkPath(s1, s1.root, h.path), h.secure, h.tslash, flags)
         IN IF r.ok THEN r ELSE No(st)

RRegisterRoot(st, r) ==
    IF st.root = 0 THEN Ok([st EXCEPT !.root = r, !.n[r].parent = -1], 0)
    ELSE IF ~CanHandle(st, r) THEN PassAll(st, r, st.root)
    ELSE IF ~CanHandle(st, st.root)
    THEN LET m == PassAll(st, st.root, r) IN
         IF ~m.ok THEN m
         ELSE Ok([m.st EXCEPT !.root = r, !.n[r].parent = -1, !.n[st.root].parent = 0], 0)
    ELSE No(st)

\* Register r below the router's responder i (a host may be new).
RKeep(st, i, isNew, prefix, r) ==
    IF ~FreshIn(st, i, st.n[r].t) \/ ~FreshSubtree(st, i, r) THEN No(st)
    ELSE LET k == IF prefix # "" THEN KeepUnder(st, i, prefix, r) ELSE Keep(st, i, r) IN
         IF ~k.ok THEN k
         ELSE IF isNew THEN Ok(AttachHost(k.st, i), 0) ELSE Ok(k.st, 0)

RRegister(st, r) ==
    IF r = 0 THEN No(st)
    ELSE IF st.n[r].parent # 0 THEN No(st)
    ELSE LET u == st.n[r].urlt
             s1 == Forget(st, r)
             g == IF u.host = "" THEN [ok |-> FALSE] ELSE GetHost(s1, u.host)
         IN IF u.has /\ u.host # ""
            THEN IF ~g.ok THEN No(s1)
                 ELSE IF g.new /\ HostNamed(st, g.st.n[g.id].t.name) # 0 THEN No(s1)
                 ELSE LET k == RKeep(g.st, g.id, g.new, IF u.prefix = "/" THEN "" ELSE u.prefix, r) IN
                      IF k.ok THEN k ELSE [k EXCEPT !.st = s1]
            ELSE IF st.n[r].root THEN RRegisterRoot(s1, r)
            ELSE LET s2 == EnsureRoot(s1)
                     k == RKeep(s2, s2.root, FALSE, u.prefix, r)
                 IN IF k.ok THEN k ELSE [k EXCEPT !.st = s1]

RRegisterUnder(st, url, r) ==
    IF r = 0 THEN No(st)
    ELSE IF st.n[r].parent # 0 THEN No(st)
    ELSE LET h == IF url = "" THEN [ok |-> TRUE, host |-> "", path |-> "", secure |-> FALSE, tslash |-> FALSE]
                  ELSE SplitHostPath(url)
             u == st.n[r].urlt
             path == WithSlash(h.path)
             up == WithSlash(u.prefix)
             s1 == Forget(st, r)
             g == IF h.host = "" THEN [ok |-> FALSE] ELSE GetHost(s1, h.host)
             sec(s) == IF h.secure THEN [s EXCEPT !.n[r].cf = @ \cup {"sec"}] ELSE s
             prefix == IF path = "/" THEN "" ELSE path
         IN IF ~h.ok THEN No(st)
            ELSE IF u.has /\ u.host # "" /\ u.host # h.host THEN No(s1)
            ELSE IF u.has /\ u.prefix # "" /\ path # "/" /\ path # up THEN No(s1)
            ELSE IF h.host # ""
            THEN IF ~g.ok THEN No(s1)
                 ELSE IF g.new /\ HostNamed(st, g.st.n[g.id].t.name) # 0 THEN No(s1)
                 ELSE IF ~FreshIn(g.st, g.id, st.n[r].t) \/ ~FreshSubtree(g.st, g.id, r) THEN No(s1)
                 ELSE LET k == RKeep(sec(g.st), g.id, g.new, prefix, r) IN
                      IF k.ok THEN k ELSE [k EXCEPT !.st = s1]
            ELSE IF st.n[r].root
            THEN IF path = "" THEN RRegisterRoot(s1, r) ELSE No(s1)
            ELSE LET s2 == EnsureRoot(s1) IN
                 IF ~FreshIn(s2, s2.root, st.n[r].t) \/ ~FreshSubtree(s2, s2.root, r) THEN No(s1)
                 ELSE LET k == RKeep(sec(s2), s2.root, FALSE, prefix, r) IN
                      IF k.ok THEN k ELSE [k EXCEPT !.st = s1]

\* Existing responder (host or resource) by a URL: [ok, st, id, host]
RFind(st, u) ==
    LET h == SplitHostPath(u)
        f == IF h.ok /\ h.host # "" THEN FindHost(st, h.host) ELSE [ok |-> FALSE]
        top == IF ~h.ok THEN 0 ELSE IF h.host # "" THEN IF f.ok THEN f.id ELSE 0 ELSE st.root
        l == IF top = 0 THEN [ok |-> TRUE, id |-> 0]
             ELSE IF h.path \in {"", "/"} THEN [ok |-> TRUE, id |-> top]
             ELSE LookupPath(st, top, h.path)
    IN IF ~h.ok THEN [ok |-> FALSE]
       ELSE IF h.host # "" /\ ~f.ok THEN [ok |-> FALSE]
       ELSE IF ~l.ok THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, id |-> l.id, host |-> h.host # "" /\ h.path = "",
             secure |-> h.secure, tslash |-> h.tslash, path |-> h.path]

RRegistered(st, u) ==
    LET f == RFind(st, u) IN
    IF ~f.ok THEN No(st)
    ELSE IF f.path = "" THEN No(st)
    ELSE IF f.id = 0 THEN Ok(st, 0)
    ELSE Adopt(st, f.id, f.secure, f.tslash, {})

\* Used by the router's ...At and ...Of methods that need an existing one.  A
\* responder that was never configured is rejected.
RExisting(st, u) ==
    LET f == RFind(st, u) IN
    IF ~f.ok THEN No(st)
    ELSE IF f.id = 0 THEN Ok(st, 0)
    ELSE IF Compat(st, f.id, f.secure, f.tslash, {}) = "same" THEN Ok(st, f.id)
    ELSE No(st)

\* Used by the router's ...At methods that create missing responders.
RObtain(st, u) ==
    LET h == SplitHostPath(u) IN
    IF ~h.ok THEN No(st)
    ELSE IF h.host = ""
    THEN RResource(st, u, FALSE, <<>>)
    ELSE LET g == GetHost(st, h.host) IN
         IF ~g.ok THEN No(st)
         ELSE IF g.new /\ HostNamed(st, g.st.n[g.id].t.name) # 0 THEN No(st)
         ELSE IF h.path = ""
         THEN IF g.new THEN Ok(AttachHost(Configure(g.st, g.id, h.secure, h.tslash, {}), g.id), g.id)
              ELSE Adopt(g.st, g.id, h.secure, h.tslash, {})
         ELSE LET r == FindOrGrow(g.st, WalkPath(g.st, g.id, h.path), h.secure, h.tslash, {}) IN
              IF ~r.ok THEN No(st)
              ELSE IF g.new THEN Ok(AttachHost(r.st, g.id), r.ret) ELSE r

-----------------------------------------------------------------------------
(* Setters.  Each is applied to a responder i of the state. *)

SetCfg(st, i, cfg) ==
    LET c == IF st.n[i].root THEN RootCfg(cfg) ELSE Range(cfg)
        keep == st.n[i].cf \cap {"sec", "ts"}
    IN [st EXCEPT !.n[i].cf = {"act"} \cup keep \cup AsFlags(SetToSeq(c))]

\* The order of methods, which is also the order of the Allow header.
MethodIdx(mh, m) == {k \in DOMAIN mh : mh[k].m = m}
PutMethod(mh, m, h, w) ==
    IF MethodIdx(mh, m) = {} THEN Append(mh, [m |-> m, h |-> h, w |-> w])
    ELSE [mh EXCEPT ![CHOOSE k \in MethodIdx(mh, m) : TRUE] = [m |-> m, h |-> h, w |-> w]]
RECURSIVE PutAll(_, _, _)
PutAll(mh, ms, h) == IF ms = <<>> THEN mh ELSE PutAll(PutMethod(mh, Head(ms), h, <<>>), Tail(ms), h)

SetHandler(st, i, methods, h) ==
    LET ms == SplitMethods(methods)
        x == st.n[i]
        mh1 == PutAll(x.mh, ms, h)
        mh2 == IF MethodIdx(mh1, "OPTIONS") = {} THEN PutMethod(mh1, "OPTIONS", "#options", <<>>) ELSE mh1
        s1 == [st EXCEPT !.n[i].has = TRUE]
    IN IF ms = <<>> \/ h = "" THEN No(st)
       ELSE IF ms = <<"!">> THEN Ok([s1 EXCEPT !.n[i].na = h, !.n[i].naw = <<>>], i)
       ELSE Ok([s1 EXCEPT !.n[i].mh = mh2], i)

\* Middlewares are listed from the innermost to the outermost.
WrapHandlers(st, i, ms, mws) ==
    LET x == st.n[i]
        Wrapped(k) == [x.mh[k] EXCEPT !.w = @ \o mws]
    IN IF mws = <<>> \/ ~x.has THEN No(st)
       ELSE IF x.mh = <<>> /\ x.na = "" THEN No(st)
       ELSE IF ms = <<>> THEN No(st)
       ELSE IF ms = <<"!">>
       THEN Ok([st EXCEPT !.n[i].na = IF @ = "" THEN "#notallowed" ELSE @, !.n[i].naw = @ \o mws], i)
       ELSE IF ms = <<"*">>
       THEN Ok([st EXCEPT !.n[i].mh = [k \in DOMAIN @ |-> Wrapped(k)]], i)
       ELSE IF \E k \in DOMAIN ms : MethodIdx(x.mh, ms[k]) = {} THEN No(st)
       ELSE Ok([st EXCEPT !.n[i].mh = [k \in DOMAIN @ |->
                    IF @[k].m \in Range(ms)
                    THEN [@[k] EXCEPT !.w = @ \o FlattenSeq([j \in 1..Cardinality({q \in DOMAIN ms : ms[q] = x.mh[k].m}) |-> mws])]
                    ELSE @[k]]], i)

RECURSIVE WrapEach(_, _, _, _)
WrapEach(st, i, ms, mws) ==      \* methods one by one; missing ones are skipped
    IF ms = <<>> THEN st
    ELSE LET m == Head(ms)
             skip == m \notin {"!", "*"} /\ MethodIdx(st.n[i].mh, m) = {}
         IN WrapEach(IF skip THEN st ELSE WrapHandlers(st, i, <<m>>, mws).st, i, Tail(ms), mws)
RECURSIVE WrapEvery(_, _, _, _)
WrapEvery(st, ids, ms, mws) ==
    IF ids = {} THEN st
    ELSE LET i == CHOOSE j \in ids : TRUE IN
         WrapEvery(IF CanHandle(st, i) THEN WrapEach(st, i, ms, mws) ELSE st, ids \ {i}, ms, mws)

RedURL(u) == IF HasPrefix(u, "http") \/ HasPrefix(u, "/") THEN u ELSE "/" \o u
SetImpl(st, i, impl) ==
    IF impl.type = "" THEN No(st)
    ELSE Ok([st EXCEPT !.n[i] = ImplNode(st.n[i], impl)], i)

\* The setter of the operation o on the responder i.
Apply1(st, i, o) ==
    CASE o.set = "SharedData" -> Ok([st EXCEPT !.n[i].data = o.data], i)
      [] o.set = "Configuration" -> Ok(SetCfg(st, i, o.cfg), i)
      [] o.set = "Implementation" -> SetImpl(st, i, o.impl)
      [] o.set = "Handler" -> SetHandler(st, i, o.methods, o.h)
      [] o.set = "WrapPasser" ->
            IF o.mws = <<>> THEN No(st) ELSE Ok([st EXCEPT !.n[i].pw = @ \o o.mws], i)
      [] o.set = "WrapHandler" ->
            IF o.mws = <<>> THEN No(st)
            ELSE Ok([st EXCEPT !.n[i].has = TRUE, !.n[i].hw = @ \o o.mws], i)
      [] o.set = "WrapHandlerOf" -> WrapHandlers(st, i, SplitMethods(o.methods), o.mws)
      [] o.set = "RedirectCode" ->
            IF o.code \notin {301, 308} THEN No(st) ELSE Ok([st EXCEPT !.n[i].prc = o.code], i)
      [] o.set = "RedirectHandler" ->
            IF o.h = "" THEN No(st)
            ELSE Ok([st EXCEPT !.n[i].rdh = o.h, !.n[i].rdw = <<>>], i)
      [] o.set = "WrapRedirectHandler" ->
            IF o.mws = <<>> THEN No(st)
            ELSE Ok([st EXCEPT !.n[i].rdw = (IF st.n[i].rdh = "" THEN st.rdw ELSE @) \o o.mws,
                               !.n[i].rdh = IF @ = "" THEN st.crd ELSE @], i)
      [] o.set = "Redirect" ->
            IF o.url = "" \/ o.code < 300 \/ o.code > 399 THEN No(st)
            ELSE Ok([st EXCEPT !.n[i].red = [url |-> RedURL(o.url), code |-> o.code]], i)
      [] o.set = "RedirectAny" ->
            IF o.url = "" \/ o.code < 300 \/ o.code > 399 THEN No(st)
            ELSE Ok([st EXCEPT !.n[i].any = [url |-> RedURL(o.url), code |-> o.code]], i)

RECURSIVE ApplyToAll(_, _, _)
ApplyToAll(st, ids, o) ==
    IF ids = {} THEN Ok(st, 0)
    ELSE LET i == CHOOSE j \in ids : TRUE
             r == Apply1(st, i, o)
         IN IF ~r.ok THEN No(st) ELSE ApplyToAll(r.st, ids \ {i}, o)

\* The ...ForSubtree, WrapSubtree... and ...All operations on a set of responders.
ApplyToSubtree(st, ids, o) ==
    CASE o.set = "SharedData" -> ApplyToAll(st, {i \in ids : st.n[i].data = ""}, o)
      [] o.set = "Configuration" ->
            ApplyToAll(st, {i \in ids : st.n[i].cf \subseteq {"act", "sec", "ts"}}, o)
      [] o.set \in {"WrapPasser", "WrapHandler"} -> ApplyToAll(st, ids, o)
      [] o.set = "WrapHandlerOf" ->
            LET ms == SplitMethods(o.methods) IN
            IF ms = <<>> THEN No(st)
            ELSE IF o.mws = <<>>
            THEN IF \E i \in ids : CanHandle(st, i) THEN No(st) ELSE Ok(st, 0)
            ELSE Ok(WrapEvery(st, ids, ms, o.mws), 0)

-----------------------------------------------------------------------------
(* URLs of responders: [ok, scheme, host, path, esc]; esc is the encoded path *)

RECURSIVE SegTexts(_, _, _)
SegTexts(st, ids, vals) ==      \* [ok, l]
    IF ids = <<>> THEN [ok |-> TRUE, l |-> <<>>]
    ELSE LET t == st.n[Head(ids)].t
             a == IF IsStatic(t) THEN [ok |-> TRUE, s |-> StaticText(t)] ELSE Apply(t, vals, FALSE)
             r == SegTexts(st, Tail(ids), vals)
         IN IF ~a.ok \/ ~r.ok THEN [ok |-> FALSE] ELSE [ok |-> TRUE, l |-> <<a.s>> \o r.l]

URLOf(st, i, vals) ==
    LET ids == Reverse(PathUp(st, i))
        h == HostOf(st, i)
        res == SelectSeq(ids, LAMBDA j : IsRes(st, j) /\ ~st.n[j].root)
        hs == IF h = 0 THEN [ok |-> TRUE, l |-> <<"">>] ELSE SegTexts(st, <<h>>, vals)
        rs == SegTexts(st, res, vals)
        x == st.n[i]
        tail == IF x.kind = "res"
                THEN (("ts" \in x.cf /\ ~x.root) \/ (x.root /\ rs.l = <<>>))
                ELSE "ts" \in x.cf
        hasSlash == \E k \in DOMAIN rs.l : HasCh(rs.l[k], "/")
        end == IF tail THEN "/" ELSE ""
        path == (IF rs.l = <<>> THEN "" ELSE "/" \o JoinWith(rs.l, "/")) \o end
        raw == "/" \o JoinWith([k \in DOMAIN rs.l |-> EscSeg(rs.l[k])], "/") \o end
    IN IF ~hs.ok \/ ~rs.ok THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, scheme |-> IF "sec" \in x.cf THEN "https" ELSE "http", host |-> hs.l[1],
             path |-> path, esc |-> IF hasSlash THEN raw ELSE EscPath(path)]

-----------------------------------------------------------------------------
(* Invariants of the tree *)

\* Names and value names are unique in every URL.
NamesUniqueInURLs(st) ==
    \A i \in AllOf(st) : \A j \in Range(Tail(PathUp(st, i))) : ~NameClash(st.n[i].t, st.n[j].t)
\* Siblings have different names and dissimilar templates.
SiblingsDistinct(st) ==
    \A p \in AllOf(st) : \A i, j \in Children(st, p) :
        i # j => /\ Similarity(st.n[i].t, st.n[j].t) = 0
                 /\ st.n[i].t.name = "" \/ st.n[i].t.name # st.n[j].t.name
HostsDistinct(st) ==
    \A i, j \in st.hs \cup Range(st.hp) : i # j => Similarity(st.n[i].t, st.n[j].t) = 0
HostNamesDistinct(st) ==
    \A i, j \in st.hs \cup Range(st.hp) :
        i # j => st.n[i].t.name = "" \/ st.n[i].t.name # st.n[j].t.name
\* A child knows its parent, and every child is in the place of its kind.
WellLinked(st) ==
    /\ \A i \in Tops(st) : st.n[i].parent = -1
    /\ \A p \in AllOf(st) :
        /\ \A c \in Children(st, p) : st.n[c].parent = p /\ IsRes(st, c) /\ ~st.n[c].root
        /\ \A c \in st.n[p].st : IsStatic(st.n[c].t)
        /\ \A c \in Range(st.n[p].pt) : IsPattern(st.n[c].t)
        /\ st.n[p].wl # 0 => IsWildcard(st.n[st.n[p].wl].t)
        /\ Cardinality(Range(st.n[p].pt)) = Len(st.n[p].pt)
    /\ \A h \in st.hs \cup Range(st.hp) : IsHost(st, h) /\ ~IsWildcard(st.n[h].t)
RootHasNoSlashFlags(st) ==
    st.root # 0 => st.n[st.root].cf \cap {"ts", "lts", "strict"} = {}
RedirectImpliesSecure(st) == \A i \in DOMAIN st.n : "red" \in st.n[i].cf => "sec" \in st.n[i].cf

TreeInv(st) ==
    /\ NamesUniqueInURLs(st) /\ SiblingsDistinct(st) /\ HostsDistinct(st)
    /\ st.kf \/ HostNamesDistinct(st)
    /\ WellLinked(st) /\ RootHasNoSlashFlags(st) /\ RedirectImpliesSecure(st)
=============================================================================
