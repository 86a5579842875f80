------------------------------- MODULE MCPool -------------------------------
(***************************************************************************)
(* C06: requests that are served at the same time, in all interleavings.     *)
(* The arguments of a request are taken from a pool, are written and         *)
(* observed at every event of the request, and are put back at its end,       *)
(* unless a handler panics.  Every request observes what it would observe     *)
(* alone.  All complete schedules are executed by the real code.              *)
(***************************************************************************)
EXTENDS Calls

CONSTANTS Count,      \* number of the requests
          Kinds       \* which of the requests below

Setup ==
    <<[op |-> "RWrapPasser", mws |-> <<"m1">>],
      H(0, "/a/{p:a|b}", "GET", "h1"),
      H(0, "/b/{w}", "GET", "=h2"),
      Wrap(0, "/b/{w}", "WrapHandler", <<"~m2">>),
      Cfg(0, "/c", <<"sub">>),
      H(0, "/c", "GET", "-h3"),
      [op |-> "SetAt", set |-> "SharedData", i |-> 0, u |-> "/a/{p:a|b}", data |-> "d1"],
      H(0, "http://{s:a|b}.h.com/{w}", "GET", "h4")>>

RECURSIVE Run(_, _)
Run(s, ops) ==
    IF ops = <<>> THEN s
    ELSE LET r == Do(s, Head(ops)) IN
         Run([r.st EXCEPT !.ref = Append(@, IF r.ok THEN r.ret ELSE 0)], Tail(ops))
Tree_ == Run(InitTree, Setup)

Base_(p, h) == [Q(p, h, FALSE) EXCEPT !.names = <<"p", "w", "s">>, !.keys = <<"k", "m1", "~m2">>]
Own(q) == [q EXCEPT !.beh = ("m1" :> "own") @@ ("~m2" :> "own")]
Requests ==
    <<Own(Base_("/a/a", "h.com")),
      Base_("/b/x", "h.com"),
      [Base_("/a/b", "h.com") EXCEPT !.beh = ("h1" :> "panic")],
      Base_("/c/x/y", "h.com"),
      Base_("/none", "h.com"),
      [Own(Base_("/b/y", "h.com")) EXCEPT !.beh = ("m1" :> "own") @@ ("=h2" :> "nest"),
                                          !.nest = <<Base_("/a/b", "h.com")>>],
      Own(Base_("/z", "a.h.com")),
      [Base_("/a/a/", "h.com") EXCEPT !.beh = ("#std" :> "nest"), !.nest = <<Base_("/b/q", "h.com")>>]>>

\* What each of them observes when it is alone.
Alone == [k \in DOMAIN Requests |-> Served(Tree_, Requests[k], 0).a]

VARIABLES ks,      \* the requests, by their positions in Requests
          pc,      \* number of the turns that each one has had
          holds,   \* the arguments that each one holds, or 0
          pool,    \* free arguments
          made,    \* number of the arguments made so far
          mem,     \* the contents of all arguments
          seen,    \* what each one has observed so far
          sched    \* the turns

vars == <<ks, pc, holds, pool, made, mem, seen, sched>>

N == 1..Count
Turns(i) == Len(Alone[ks[i]].ev) + 1
Init ==
    /\ ks \in {f \in [N -> Kinds] : \A i \in N : i = 1 \/ f[i - 1] <= f[i]}
    /\ pc = [i \in N |-> 0] /\ holds = [i \in N |-> 0]
    /\ pool = {} /\ made = 0 /\ mem = <<>>
    /\ seen = [i \in N |-> <<>>] /\ sched = <<>>

\* In one turn a request makes its next event; in the last one it ends.
Turn(i) ==
    LET a == Alone[ks[i]]
        k == pc[i] + 1
        starts == pc[i] = 0
        ends == k = Turns(i)
        fresh == pool = {}
        id == IF ~starts THEN holds[i]
              ELSE IF fresh THEN made + 1 ELSE CHOOSE x \in pool : TRUE
        wr == IF ends THEN [owner |-> 0, v |-> NoView] ELSE [owner |-> i, v |-> a.ev[k].v]
    IN /\ pc[i] < Turns(i)
       /\ pc' = [pc EXCEPT ![i] = k]
       /\ made' = IF starts /\ fresh THEN made + 1 ELSE made
       /\ pool' = (IF starts THEN pool \ {id} ELSE pool) \cup (IF ends /\ ~a.dead THEN {id} ELSE {})
       /\ holds' = [holds EXCEPT ![i] = IF ends THEN 0 ELSE id]
       /\ mem' = IF starts /\ fresh THEN Append(mem, wr) ELSE [mem EXCEPT ![id] = wr]
       /\ seen' = IF ends THEN seen ELSE [seen EXCEPT ![i] = Append(@, mem'[id].v)]
       /\ sched' = Append(sched, i - 1)
       /\ UNCHANGED ks
Next == \E i \in N : Turn(i)

Done == \A i \in N : pc[i] = Turns(i)

Exclusive ==
    /\ \A i, j \in N : i # j /\ holds[i] # 0 => holds[i] # holds[j]
    /\ \A i \in N : holds[i] # 0 => holds[i] \notin pool /\ mem[holds[i]].owner = i
Undisturbed == \A i \in N : \A k \in DOMAIN seen[i] : seen[i][k] = Alone[ks[i]].ev[k].v
Emit ==
    Done => PrintT(<<"SCENARIO", ToJson(Setup \o
        <<[op |-> "Conc", qs |-> [i \in N |-> Requests[ks[i]]], sched |-> sched, times |-> 0],
          Req(Requests[ks[1]]), Req(Requests[ks[Count]])>>)>>)
=============================================================================
