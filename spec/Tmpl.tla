-------------------------------- MODULE Tmpl --------------------------------
(***************************************************************************)
(* Templates: parsing, textual forms, similarity, matching, application.   *)
(*                                                                         *)
(* A template is [name, segs, wc]: segs is a sequence of segments and wc is *)
(* the position of the wildcard segment or 0.  A segment is                 *)
(*   [k |-> "s", s |-> text]                       static                   *)
(*   [k |-> "w", n |-> value name]                 wildcard                 *)
(*   [k |-> "p", n, p |-> pattern, re |-> text]    regular expression; re is *)
(*       the anchored text that is shown by the textual forms              *)
(* Pats maps the text of a pattern to its syntax tree (see Regex).         *)
(***************************************************************************)
EXTENDS Regex

CONSTANT Pats

NoTmpl == [name |-> "", segs |-> <<>>, wc |-> 0]
Bad == [ok |-> FALSE]
BS == "\\"

-----------------------------------------------------------------------------
(* Parsing *)

\* The unescaped name and the escaped content of a template text.
RECURSIVE TNameFrom(_, _, _)
TNameFrom(t, i, acc) ==      \* i: where the rest of the name starts
    IF i > Len(t) THEN [ok |-> TRUE, name |-> acc, content |-> ""]
    ELSE LET c == IdxFrom(t, ":", i) IN
         IF c = 0 THEN [ok |-> TRUE, name |-> acc \o From(t, i), content |-> ""]
         ELSE IF c > i /\ Ch(t, c - 1) = BS
              THEN TNameFrom(t, c + 1, acc \o Sub(t, i, c - 2) \o ":")
              ELSE [ok |-> TRUE, name |-> acc \o Sub(t, i, c - 1),
                    content |-> From(t, c + 1)]

NameAndContent(t) ==
    IF Ch(t, 1) = "$"
    THEN IF Len(t) = 1 THEN [ok |-> FALSE, name |-> "", content |-> ""]
         ELSE TNameFrom(t, 2, "")
    ELSE [ok |-> TRUE, name |-> "",
          content |-> IF Len(t) > 1 /\ Sub(t, 1, 2) = BS \o "$" THEN From(t, 2) ELSE t]

\* The static segment at the beginning of t: [ok, s, rest].
RECURSIVE StaticSeg(_, _, _, _)
StaticSeg(t, i, idx, acc) ==      \* idx: start of the uncopied text
    IF i > Len(t) THEN [ok |-> TRUE, s |-> acc \o From(t, idx), rest |-> ""]
    ELSE LET c == Ch(t, i)
             esc == i > 1 /\ Ch(t, i - 1) = BS
         IN IF c = "{"
            THEN IF esc THEN StaticSeg(t, i + 1, i + 1, acc \o Sub(t, idx, i - 2) \o "{")
                 ELSE [ok |-> TRUE, s |-> acc \o Sub(t, idx, i - 1), rest |-> From(t, i)]
            ELSE IF c = "}"
            THEN IF esc THEN StaticSeg(t, i + 1, i + 1, acc \o Sub(t, idx, i - 2) \o "}")
                 ELSE [ok |-> FALSE, s |-> "", rest |-> ""]
            ELSE StaticSeg(t, i + 1, idx, acc)

\* The dynamic segment at the beginning of t, which starts with "{":
\* [ok, n, p, rest].  The name part (m = 0) and the pattern part (m = 1).
DynBad == [ok |-> FALSE, n |-> "", p |-> "", rest |-> ""]
RECURSIVE DynName(_, _, _, _, _)
RECURSIVE DynPat(_, _, _, _, _, _)

DynName(t, i, idx, depth, acc) ==
    IF i > Len(t) THEN DynBad
    ELSE LET c == Ch(t, i) IN
         IF c = "{" THEN DynName(t, i + 1, idx, depth + 1, acc)
         ELSE IF c = ":"
         THEN IF i > 2 /\ Ch(t, i - 1) = BS
              THEN DynName(t, i + 1, i + 1, depth, acc \o Sub(t, idx, i - 2) \o ":")
              ELSE LET n == acc \o Sub(t, idx, i - 1) IN
                   IF depth > 1 \/ n = "" THEN DynBad
                   ELSE DynPat(t, i + 1, i + 1, depth, 0, n)
         ELSE IF c = "}"
         THEN IF depth > 1 THEN DynName(t, i + 1, idx, depth - 1, acc)
              ELSE LET n == acc \o Sub(t, idx, i - 1) IN
                   IF n = "" THEN DynBad
                   ELSE [ok |-> TRUE, n |-> n, p |-> "", rest |-> From(t, i + 1)]
         ELSE DynName(t, i + 1, idx, depth, acc)

DynPat(t, i, idx, depth, cls, n) ==     \* cls: start of the character class or 0
    IF i > Len(t) THEN DynBad
    ELSE LET c == Ch(t, i) IN
         IF c = "{" THEN DynPat(t, i + 1, idx, depth + 1, cls, n)
         ELSE IF c = BS THEN DynPat(t, i + 2, idx, depth, cls, n)
         ELSE IF cls > 0
         THEN LET d == i - cls IN
              IF c = "]" /\ d > 1 /\ ~(d = 2 /\ Ch(t, i - 1) = "^")
              THEN DynPat(t, i + 1, idx, depth, 0, n)
              ELSE DynPat(t, i + 1, idx, depth, cls, n)
         ELSE IF c = "[" THEN DynPat(t, i + 1, idx, depth, i, n)
         ELSE IF c = "}"
         THEN IF depth > 1 THEN DynPat(t, i + 1, idx, depth - 1, cls, n)
              ELSE IF i = idx THEN DynBad
              ELSE [ok |-> TRUE, n |-> n, p |-> Sub(t, idx, i - 1), rest |-> From(t, i + 1)]
         ELSE DynPat(t, i + 1, idx, depth, cls, n)

\* The pattern in a form to which an anchor can be added (see Pats): an
\* alternation at the top level is enclosed in a group.
TopAlt(p) == p \in DOMAIN Pats /\ Pats[p].k = "alt"
Anchorable(p) == IF TopAlt(p) THEN "(?:" \o p \o ")" ELSE p
ValidPat(p) == p \in DOMAIN Pats /\ Pats[p].k # "bad"

HasVN(vps, n) == \E i \in DOMAIN vps : vps[i].n = n
VPOf(vps, n) == vps[CHOOSE i \in DOMAIN vps : vps[i].n = n]

\* ps: the remaining text; segs, wc: what has been parsed; vps: the patterns
\* by value name, [n, p, re].
RECURSIVE ParseSegs(_, _, _, _)
ParseSegs(t, segs, wc, vps) ==
    IF t = "" THEN [ok |-> TRUE, segs |-> segs, wc |-> wc]
    ELSE LET ss == StaticSeg(t, 1, 1, "") IN
    IF ~ss.ok THEN Bad
    ELSE LET segs1 == IF ss.s = "" THEN segs
                      ELSE Append(segs, [k |-> "s", s |-> ss.s]) IN
    IF ss.rest = "" THEN [ok |-> TRUE, segs |-> segs1, wc |-> wc]
    ELSE LET d == DynName(ss.rest, 2, 2, 1, "") IN
    IF ~d.ok THEN Bad
    ELSE LET text == IF wc > 0 THEN Anchorable(d.p) \o "$" ELSE "^" \o Anchorable(d.p) IN
    IF HasVN(vps, d.n)
    THEN LET vp == VPOf(vps, d.n) IN
         IF d.p # "" /\ text # vp.re THEN Bad
         ELSE ParseSegs(d.rest, Append(segs1, [k |-> "p", n |-> vp.n, p |-> vp.p, re |-> vp.re]),
                        wc, vps)
    ELSE IF d.p = ""
    THEN IF wc > 0 THEN Bad
         ELSE ParseSegs(d.rest, Append(segs1, [k |-> "w", n |-> d.n]), Len(segs1) + 1,
                        [i \in DOMAIN vps |-> [vps[i] EXCEPT !.re = From(vps[i].re, 2) \o "$"]])
    ELSE IF wc > 0 /\ segs1[wc].n = d.n THEN Bad      \* the wildcard's name
    ELSE IF ~ValidPat(d.p) THEN Bad
    ELSE LET vp == [k |-> "p", n |-> d.n, p |-> d.p, re |-> text] IN
         ParseSegs(d.rest, Append(segs1, vp), wc, Append(vps, vp))

DynSegs(segs) == SelectSeq(segs, LAMBDA x : x.k # "s")

Parse(t) ==
    IF t = "" THEN Bad
    ELSE LET nc == NameAndContent(t) IN
    IF ~nc.ok \/ nc.content = "" THEN Bad
    ELSE LET r == ParseSegs(nc.content, <<>>, 0, <<>>) IN
    IF ~r.ok THEN Bad
    ELSE LET l == Len(r.segs)
             segs == IF r.segs[l].k = "p" /\ r.wc = 0
                     THEN [r.segs EXCEPT ![l].re = @ \o "$"]
                     ELSE r.segs
             dyn == DynSegs(segs)
         IN [ok |-> TRUE,
             t |-> [name |-> IF nc.name = "" /\ Len(dyn) = 1 THEN dyn[1].n ELSE nc.name,
                    segs |-> segs, wc |-> r.wc]]

-----------------------------------------------------------------------------
(* Attributes *)

IsStatic(t) == Len(t.segs) = 1 /\ t.segs[1].k = "s"
IsWildcard(t) == Len(t.segs) = 1 /\ t.wc = 1
IsPattern(t) == ~IsStatic(t) /\ ~IsWildcard(t)
HasPattern(t) == \E i \in DOMAIN t.segs : t.segs[i].k = "p"
ValueNames(t) == LET d == DynSegs(t.segs) IN [i \in DOMAIN d |-> d[i].n]
StaticText(t) == t.segs[1].s

-----------------------------------------------------------------------------
(* Textual forms *)

EscName(n) == ReplaceCh(n, ":", BS \o ":")
EscStatic(s) == ReplaceCh(ReplaceCh(s, "{", BS \o "{"), "}", BS \o "}")

RECURSIVE ContentFrom(_, _, _)
ContentFrom(segs, i, esc) ==
    IF i > Len(segs) THEN ""
    ELSE LET g == segs[i]
             first == \A j \in 1..(i - 1) : ~(segs[j].k = "p" /\ g.k = "p" /\ segs[j].n = g.n)
             text == IF g.k = "s" THEN IF esc THEN EscStatic(g.s) ELSE g.s
                     ELSE "{" \o (IF esc THEN EscName(g.n) ELSE g.n)
                          \o (IF g.k = "p" /\ first THEN ":" \o g.re ELSE "") \o "}"
         IN text \o ContentFrom(segs, i + 1, esc)

Content(t) ==
    (IF t.name = "" /\ t.segs[1].k = "s" /\ Ch(t.segs[1].s, 1) = "$" THEN BS ELSE "")
    \o ContentFrom(t.segs, 1, TRUE)
UnescapedContent(t) == ContentFrom(t.segs, 1, FALSE)
TStr(t) == (IF t.name = "" THEN "" ELSE "$" \o EscName(t.name) \o ":") \o Content(t)

-----------------------------------------------------------------------------
(* Similarity: 0 different, 1 different value names, 2 different names, 3 same *)

SimSeg(a, b) ==
    IF a.k = "s" THEN IF b.k = "s" /\ a.s = b.s THEN 3 ELSE 0
    ELSE IF b.k # a.k THEN 0
    ELSE IF a.k = "p" /\ a.re # b.re THEN 0
    ELSE IF a.n # b.n THEN 1 ELSE 3

Similarity(a, b) ==
    LET byName == IF a.name # b.name THEN 2 ELSE 3 IN
    IF IsStatic(a) \/ IsStatic(b)
    THEN IF IsStatic(a) /\ IsStatic(b) /\ StaticText(a) = StaticText(b) THEN byName ELSE 0
    ELSE IF IsWildcard(a) \/ IsWildcard(b)
    THEN IF ~(IsWildcard(a) /\ IsWildcard(b)) THEN 0
         ELSE IF a.segs[1].n # b.segs[1].n THEN 1 ELSE byName
    ELSE IF a.wc # b.wc \/ Len(a.segs) # Len(b.segs) THEN 0
    ELSE LET sims == {SimSeg(a.segs[i], b.segs[i]) : i \in DOMAIN a.segs} IN
         IF 0 \in sims THEN 0 ELSE IF 1 \in sims THEN 1 ELSE byName

-----------------------------------------------------------------------------
(* Values: a sequence of [k, v]; the last pair of a key is the one in use.  *)

RECURSIVE ValFrom(_, _, _)
ValFrom(vals, k, i) ==
    IF i < 1 THEN [has |-> FALSE, v |-> ""]
    ELSE IF vals[i].k = k THEN [has |-> TRUE, v |-> vals[i].v]
    ELSE ValFrom(vals, k, i - 1)
Val(vals, k) == ValFrom(vals, k, Len(vals))

Bind(vals, n, v) == Append(vals, [k |-> n, v |-> v])
\* Bind a repeatable segment: fails if the value differs from the earlier one.
Rebind(vals, n, v) ==
    LET old == Val(vals, n) IN
    IF ~old.has THEN [ok |-> TRUE, vals |-> Bind(vals, n, v)]
    ELSE [ok |-> old.v = v, vals |-> vals]

-----------------------------------------------------------------------------
(* Matching *)

MatchFail == [ok |-> FALSE, vals |-> <<>>]

\* Forward over the segments i..k of s, then backward over the segments after
\* the wildcard.
RECURSIVE MatchFwd(_, _, _, _, _)
RECURSIVE MatchBwd(_, _, _, _)

MatchFwd(t, i, k, s, vals) ==
    IF i > k
    THEN IF t.wc = 0 THEN [ok |-> s = "", vals |-> vals]
         ELSE MatchBwd(t, Len(t.segs), s, vals)
    ELSE LET g == t.segs[i] IN
         IF g.k = "s"
         THEN IF HasPrefix(s, g.s) THEN MatchFwd(t, i + 1, k, From(s, Len(g.s) + 1), vals)
              ELSE MatchFail
         ELSE LET last == t.wc = 0 /\ i = Len(t.segs)
                  e == IF last THEN IF FullMatch(Pats[g.p], s) THEN Len(s) + 1 ELSE 0
                       ELSE PrefixEnd(Pats[g.p], s)
              IN IF e = 0 THEN MatchFail
                 ELSE LET b == Rebind(vals, g.n, Sub(s, 1, e - 1)) IN
                      IF ~b.ok THEN MatchFail
                      ELSE MatchFwd(t, i + 1, k, From(s, e), b.vals)

MatchBwd(t, i, s, vals) ==
    IF i = t.wc
    THEN [ok |-> TRUE, vals |-> Bind(vals, t.segs[i].n, s)]
    ELSE LET g == t.segs[i] IN
         IF g.k = "s"
         THEN IF HasSuffix(s, g.s) THEN MatchBwd(t, i - 1, TrimSuffix(s, g.s), vals)
              ELSE MatchFail
         ELSE LET b == SuffixStart(Pats[g.p], s) IN
              IF b = 0 THEN MatchFail
              ELSE LET r == Rebind(vals, g.n, From(s, b)) IN
                   IF ~r.ok THEN MatchFail
                   ELSE MatchBwd(t, i - 1, Sub(s, 1, b - 1), r.vals)

\* On a failure the passed values are returned as they were.
Match(t, s, vals) ==
    LET m == MatchFwd(t, 1, IF t.wc = 0 THEN Len(t.segs) ELSE t.wc - 1, s, vals) IN
    IF m.ok THEN m ELSE [ok |-> FALSE, vals |-> vals]

-----------------------------------------------------------------------------
(* Application *)

\* A value is valid when the segment would take exactly it.
AnchoredFront(g) == Ch(g.re, 1) = "^"
AnchoredBack(g) == Ch(g.re, Len(g.re)) = "$"
ValueOK(g, v) ==
    LET re == Pats[g.p] IN
    IF AnchoredFront(g) /\ AnchoredBack(g) THEN FullMatch(re, v)
    ELSE IF AnchoredFront(g) THEN PrefixEnd(re, v) = Len(v) + 1
    ELSE SuffixStart(re, v) = 1

RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(t, i, vals, ign) ==
    IF i > Len(t.segs) THEN [ok |-> TRUE, s |-> ""]
    ELSE LET g == t.segs[i]
             rest == ApplyFrom(t, i + 1, vals, ign)
             v == IF g.k = "s" THEN [has |-> TRUE, v |-> g.s] ELSE Val(vals, g.n)
         IN IF ~v.has THEN IF ign THEN rest ELSE [ok |-> FALSE, s |-> ""]
            ELSE IF g.k = "p" /\ ~ValueOK(g, v.v) THEN [ok |-> FALSE, s |-> ""]
            ELSE IF rest.ok THEN [ok |-> TRUE, s |-> v.v \o rest.s]
            ELSE rest
Apply(t, vals, ign) == ApplyFrom(t, 1, vals, ign)
=============================================================================
