------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* Leftmost-first (Perl/Go) matching of small regular expressions.  An     *)
(* expression is a syntax tree (a record with a kind k); the text of the   *)
(* pattern appears only in templates.  Ends(re, s, i) is the sequence of   *)
(* the positions (1-based, one past the end of the match) at which a match *)
(* of re that starts at position i may end, in the order of preference.    *)
(*   [k |-> "lit", s |-> string]   [k |-> "cls", cs |-> seq, neg |-> BOOL]  *)
(*   [k |-> "any"]  [k |-> "grp", e |-> tree]  [k |-> "cat", l |-> seq]  [k |-> "alt", l |-> seq]       *)
(*   [k |-> "rep", min, max (-1: unbounded), g |-> greedy, e |-> tree]       *)
(***************************************************************************)
EXTENDS Strs

RECURSIVE DedupOnto(_, _)
DedupOnto(acc, seq) ==
    IF seq = <<>> THEN acc
    ELSE DedupOnto(IF Head(seq) \in Range(acc) THEN acc ELSE Append(acc, Head(seq)),
                   Tail(seq))

RECURSIVE Ends(_, _, _)
RECURSIVE CatEnds(_, _, _)
RECURSIVE RepEnds(_, _, _, _)
RECURSIVE OverEnds(_, _, _)     \* continue a concatenation from several positions
RECURSIVE OverRep(_, _, _, _)

Ends(re, s, i) ==
    CASE re.k = "lit" ->
            IF HasPrefix(From(s, i), re.s) THEN <<i + Len(re.s)>> ELSE <<>>
      [] re.k = "any" -> IF i <= Len(s) THEN <<i + 1>> ELSE <<>>
      [] re.k = "cls" ->
            IF i <= Len(s) /\ ((Ch(s, i) \in Range(re.cs)) # re.neg)
            THEN <<i + 1>> ELSE <<>>
      [] re.k = "grp" -> Ends(re.e, s, i)
      [] re.k = "cat" -> CatEnds(re.l, s, i)
      [] re.k = "alt" ->
            DedupOnto(<<>>, FlattenSeq([j \in DOMAIN re.l |-> Ends(re.l[j], s, i)]))
      [] re.k = "rep" -> RepEnds(re, 0, s, i)

CatEnds(l, s, i) ==
    IF l = <<>> THEN <<i>>
    ELSE DedupOnto(<<>>, OverEnds(Ends(Head(l), s, i), Tail(l), s))

OverEnds(ps, l, s) ==
    IF ps = <<>> THEN <<>>
    ELSE CatEnds(l, s, Head(ps)) \o OverEnds(Tail(ps), l, s)

\* n iterations have been made and the position is i.  An iteration must
\* consume at least one character (the generator has no nullable bodies).
RepEnds(re, n, s, i) ==
    LET here == IF n >= re.min THEN <<i>> ELSE <<>>
        more == IF re.max >= 0 /\ n >= re.max THEN <<>>
                ELSE OverRep(SelectSeq(Ends(re.e, s, i), LAMBDA p : p > i), re, n + 1, s)
    IN DedupOnto(<<>>, IF re.g THEN more \o here ELSE here \o more)

OverRep(ps, re, n, s) ==
    IF ps = <<>> THEN <<>>
    ELSE RepEnds(re, n, s, Head(ps)) \o OverRep(Tail(ps), re, n, s)

\* The preferred match at the beginning of s: its end, or 0.
PrefixEnd(re, s) == LET e == Ends(re, s, 1) IN IF e = <<>> THEN 0 ELSE Head(e)
\* The whole s matches.
FullMatch(re, s) == (Len(s) + 1) \in Range(Ends(re, s, 1))
\* The leftmost start of a match that ends at the end of s, or 0.
RECURSIVE SuffixStartFrom(_, _, _)
SuffixStartFrom(re, s, i) ==
    IF i > Len(s) + 1 THEN 0
    ELSE IF (Len(s) + 1) \in Range(Ends(re, s, i)) THEN i
    ELSE SuffixStartFrom(re, s, i + 1)
SuffixStart(re, s) == SuffixStartFrom(re, s, 1)
=============================================================================
