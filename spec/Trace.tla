------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded scenarios: every line of the trace is a scenario, *)
(* that is a sequence of operations which were executed by the real code,   *)
(* together with what was observed.  Each scenario is a behaviour that      *)
(* starts in the initial state and makes one step per operation; the step   *)
(* is possible only if the specification allows what was observed.          *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Head_ == JsonDeserialize(IOEnv.VERIF_HEADER)
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)

TracePats == Head_.pats
TraceEsc == Head_.esc
TraceImpls == Head_.impls
TraceMethods == Head_.methods

VARIABLES sc, l, st, skip

vars == <<sc, l, st, skip>>

Init == sc \in DOMAIN Traces /\ l = 1 /\ st = InitTree /\ skip = FALSE

\* The position of the operation that returned the responder id first, or 0.
FirstRef(s, id) ==
    LET k == {j \in DOMAIN s.ref : s.ref[j] = id} IN
    IF k = {} THEN 0 ELSE CHOOSE j \in k : \A m \in k : j <= m

RetOut(r) ==
    IF r.ret = 0 THEN [nil |-> TRUE, same |-> 0, chain |-> <<>>]
    ELSE [nil |-> FALSE, same |-> FirstRef(st, r.ret), chain |-> Chain(r.st, r.ret)]

\* Unregistered responders without a parent, as [ref, dump].
Loose(s) ==
    LET ks == {k \in DOMAIN s.ref : s.ref[k] # 0 /\ s.n[s.ref[k]].parent = 0
                                    /\ FirstRef(s, s.ref[k]) = k}
    IN {[ref |-> k, d |-> Dump(s, s.ref[k])] : k \in ks}

Fail(what, want, got) ==
    PrintT(<<"MISMATCH", ToJson([sc |-> Traces[sc].id, step |-> l, what |-> what,
                                 want |-> want, got |-> got])>>)

Must(cond, what, want, got) == IF cond THEN TRUE ELSE Fail(what, want, got) /\ FALSE

\* TRUE when the observation x of the operation x.o is what the result r says.
Agrees(r, x) ==
    /\ Must(x.crash = "", "crash", "", x.crash)
    /\ Must(x.ok = r.ok, "ok", r.ok, x.ok)
    /\ IF r.dirty THEN TRUE
       ELSE /\ IF r.ok
               THEN /\ Must(RetOut(r) = x.ret, "ret", RetOut(r), x.ret)
                    /\ Must(Out(st, x.o, r) = x.out, "out", Out(st, x.o, r), x.out)
               ELSE TRUE
            /\ IF x.dump = <<>> THEN TRUE
               ELSE LET s == [r.st EXCEPT !.ref = Append(@, IF r.ok THEN r.ret ELSE 0)]
                        d == NormRouter(x.dump[1])
                        want == IF x.rootseen THEN RouterDump(s) ELSE [RouterDump(s) EXCEPT !.root = <<>>]
                        loose == {[ref |-> x.loose[k].ref, d |-> Norm(x.loose[k].d)] : k \in DOMAIN x.loose}
                    IN /\ Must(want = d, "dump", want, d)
                       /\ Must(Loose(s) = loose, "loose", Loose(s), loose)

Step ==
    /\ l <= Len(Traces[sc].steps)
    /\ LET x == Traces[sc].steps[l]
           r == Do(st, x.o)
       IN IF skip THEN UNCHANGED <<st, skip>>
          ELSE IF r.kf /\ ~x.ok /\ x.crash = ""      \* a known finding has been repaired
          THEN st' = st /\ skip' = TRUE
          ELSE /\ Agrees(r, x)
               /\ CallProps(st, x.o, r, x.out) \in BOOLEAN
               /\ st' = [r.st EXCEPT !.ref = Append(@, IF r.ok THEN r.ret ELSE 0)]
               /\ skip' = r.dirty
    /\ l' = l + 1
    /\ UNCHANGED sc

Next == Step
Spec == Init /\ [][Next]_vars

\* Checked in every state of every recorded behaviour.
Invariant == skip \/ TreeInv(st)
=============================================================================
