--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of the specification.  A behaviour makes  *)
(* the calls of Setup, then at most Depth times one of the bundles (short    *)
(* sequences of calls) that the menu of the model offers, and finally the    *)
(* probes of the model.  All of it is judged by the predicates in Props; the  *)
(* invariants of the tree are checked in every state.  Every complete        *)
(* behaviour is printed as a scenario, which is then executed by the real     *)
(* code and validated against the specification by Trace.                    *)
(***************************************************************************)
EXTENDS Calls

CONSTANTS Depth,           \* number of the bundles
          Wide,            \* whether the wider vocabulary is used
          Menu(_, _, _),   \* step, state, calls so far -> a set of sequences of calls
          Setup,
          Probes(_, _)     \* state, calls so far -> a sequence of calls

-----------------------------------------------------------------------------
VARIABLES step,   \* number of the bundles
          calls,   \* the calls so far
          tree,     \* the state of the specification
          end     \* a call has failed halfway, which is as far as the specification goes

vars == <<step, calls, tree, end>>

One(s, o) ==
    LET r == Do(s, o) IN
    [ok |-> CallProps(s, o, r, IF r.ok THEN Out(s, o, r) ELSE <<>>),
     st |-> [r.st EXCEPT !.ref = Append(@, IF r.ok THEN r.ret ELSE 0)], dirty |-> r.dirty]

\* A call on what a call that has failed would have returned isn't made.
Usable(s, o) == \A f \in {"i", "r"} \cap DOMAIN o : o[f] = 0 \/ s.ref[o[f]] # 0

\* The calls ops in the state s, up to one that cannot be made: [ok, st, dirty, n,
\* stop]; n of them have been made.
Run(s, ops) ==
    FoldLeft(LAMBDA x, o :
                 IF x.stop \/ ~Usable(x.st, o) THEN [x EXCEPT !.stop = TRUE]
                 ELSE LET r == One(x.st, o) IN
                      [ok |-> r.ok, st |-> r.st, dirty |-> r.dirty, n |-> x.n + 1, stop |-> ~r.ok \/ r.dirty],
             [ok |-> TRUE, st |-> s, dirty |-> FALSE, n |-> 0, stop |-> FALSE], ops)

Init ==
    LET r == Run(InitTree, Setup) IN
    /\ step = 0 /\ calls = Setup /\ tree = r.st /\ end = r.dirty
    /\ Assert(r.ok, "a property is broken")

Next ==
    /\ step < Depth /\ ~end
    /\ \E b \in Menu(step + 1, tree, calls) :
        LET r == Run(tree, b) IN
        /\ Assert(r.ok, "a property is broken")
        /\ step' = step + 1
        /\ calls' = calls \o SubSeq(b, 1, r.n)
        /\ tree' = r.st
        /\ end' = r.dirty

Leaf == end \/ step = Depth \/ Menu(step + 1, tree, calls) = {}

\* The tree is in order in every state.
Shape == end \/ StateProps(tree)
\* The probes of a complete behaviour.
Judged ==
    Leaf => LET ps == IF end THEN <<>> ELSE Probes(tree, calls)
                r == Run(tree, ps)
            IN /\ r.ok
               /\ PrintT(<<"SCENARIO", ToJson(calls \o SubSeq(ps, 1, r.n))>>)
=============================================================================
