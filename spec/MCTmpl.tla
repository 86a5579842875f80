------------------------------- MODULE MCTmpl -------------------------------
(* C03, C04, C05: all templates of up to Depth pieces, all short strings and   *)
(* other templates. *)
EXTENDS MC

Pieces == {"a", "1", "{x}", "{x:a|b}", "{y:[a-c]+}", "{z:\\d*}"}
          \cup (IF Wide THEN {"{y}", "$n1:", "\\{", "b", "{x:a|ab}"} ELSE {})
Text(hist) == IF hist = <<>> THEN "" ELSE LastOf(hist).t
TmplSetup == <<>>
TmplMenu(k, s, hist) == {<<[op |-> "Parse", t |-> Text(hist) \o p]>> : p \in Pieces}

Letters == {"a", "b", "1"}
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN "" ELSE Head(l) \o Concat(Tail(l))
Strings == TLCEval({Concat(l) : l \in SeqsTo(Letters, 3)})

\* A value of every name, such that the text is the concatenation of the pieces.
RECURSIVE Splits(_, _, _)
Splits(segs, s, vals) ==
    IF segs = <<>> THEN s = ""
    ELSE LET g == Head(segs) IN
         IF g.k = "s" THEN HasPrefix(s, g.s) /\ Splits(Tail(segs), From(s, Len(g.s) + 1), vals)
         ELSE LET v == Val(vals, g.n).v IN
              /\ HasPrefix(s, v) /\ Splits(Tail(segs), From(s, Len(v) + 1), vals)
              /\ g.k = "w" \/ FullMatch(Pats[g.p], v)

\* A match is a decomposition, nothing is kept of a failed one, and the text comes
\* back from the values.
Sound(t) ==
    \A s \in Strings :
        LET m == Match(t, s, <<>>) IN
        /\ m.ok => Splits(t.segs, s, m.vals)
        /\ ~m.ok => m.vals = <<>>
        /\ m.ok => Cardinality({v.k : v \in Range(m.vals)}) = Len(m.vals)

\* Applying the values of a match gives the text back.
Restored(t) ==
    \A s \in Strings :
        LET m == Match(t, s, <<>>)
            a == Apply(t, m.vals, FALSE)
        IN m.ok => a = [ok |-> TRUE, s |-> s]

\* The kinds are exclusive: only a wildcard takes any string, and static ones and
\* wildcards have no regular expressions.
Kinds(t) ==
    /\ ~(IsStatic(t) /\ IsWildcard(t))
    /\ HasPattern(t) => IsPattern(t)
    /\ IsStatic(t) => {s \in Strings : Match(t, s, <<>>).ok} = {StaticText(t)} \cap Strings
    /\ IsWildcard(t) => \A s \in Strings : Match(t, s, <<>>).ok
Templates ==
    LET leaf == Parse(Text(calls)) IN
    Text(calls) # "" /\ leaf.ok =>
        /\ Sound(leaf.t) /\ Restored(leaf.t)
        /\ Kinds(leaf.t)
        /\ Similarity(leaf.t, leaf.t) = 3
        /\ \A p \in Pieces \cup {"{q}", "$n2:a", "{q:a|b}"} :
            LET o == Parse(p) IN
            o.ok => /\ Similarity(leaf.t, o.t) = Similarity(o.t, leaf.t)
                    \* Templates of siblings that aren't different match the same.
                    /\ Similarity(leaf.t, o.t) # 0 =>
                        \A s \in Strings : Match(leaf.t, s, <<>>).ok = Match(o.t, s, <<>>).ok

TmplProbes(s, hist) ==
    LET t == Text(hist)
        names == <<"x", "y", "z">>
        ss == SetToSeq(Strings)
        m == [k \in DOMAIN ss |-> [op |-> "Match", t |-> t, s |-> ss[k], vals |-> <<>>, names |-> names]]
        o == SetToSeq(Pieces \cup {"{q:a|b}", t})
        good == SelectSeq(ss, LAMBDA x : Match(Parse(t).t, x, <<>>).ok)
        ap == [k \in DOMAIN good |-> [op |-> "Apply", t |-> t, ign |-> FALSE,
                                      vals |-> Match(Parse(t).t, good[k], <<>>).vals]]
        sims == [k \in DOMAIN o |-> [op |-> "Sim", t |-> t, t2 |-> o[k]]]
    IN IF Parse(t).ok THEN m \o ap \o sims ELSE <<>>
=============================================================================
