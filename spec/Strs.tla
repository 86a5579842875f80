-------------------------------- MODULE Strs --------------------------------
(***************************************************************************)
(* Character-level helpers on TLC strings.  TLC treats strings as          *)
(* sequences of characters for Len, SubSeq and \o.  Indices are 1-based.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ch(s, i) == SubSeq(s, i, i)
Sub(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, j)
From(s, i) == Sub(s, i, Len(s))

HasPrefix(s, p) == Len(p) <= Len(s) /\ Sub(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ Sub(s, Len(s) - Len(p) + 1, Len(s)) = p
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN From(s, Len(p) + 1) ELSE s
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN Sub(s, 1, Len(s) - Len(p)) ELSE s

RECURSIVE TrimSlashes(_)
TrimSlashes(s) == IF HasSuffix(s, "/") THEN TrimSlashes(Sub(s, 1, Len(s) - 1)) ELSE s

\* Position of the character c in s at or after i, or 0.
RECURSIVE IdxFrom(_, _, _)
IdxFrom(s, c, i) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) = c THEN i
    ELSE IdxFrom(s, c, i + 1)
Idx(s, c) == IdxFrom(s, c, 1)

RECURSIVE LastIdxFrom(_, _, _)
LastIdxFrom(s, c, i) ==
    IF i < 1 THEN 0
    ELSE IF Ch(s, i) = c THEN i
    ELSE LastIdxFrom(s, c, i - 1)
LastIdx(s, c) == LastIdxFrom(s, c, Len(s))

HasCh(s, c) == Idx(s, c) > 0

\* Split at every occurrence of the character c: a non-empty sequence.
RECURSIVE SplitAt(_, _)
SplitAt(s, c) ==
    LET i == Idx(s, c) IN
    IF i = 0 THEN <<s>>
    ELSE <<Sub(s, 1, i - 1)>> \o SplitAt(From(s, i + 1), c)

RECURSIVE JoinWith(_, _)
JoinWith(seq, sep) ==
    IF seq = <<>> THEN ""
    ELSE IF Len(seq) = 1 THEN seq[1]
    ELSE seq[1] \o sep \o JoinWith(Tail(seq), sep)

\* Replace every occurrence of the character c with the string by.
RECURSIVE ReplaceCh(_, _, _)
ReplaceCh(s, c, by) ==
    LET i == Idx(s, c) IN
    IF i = 0 THEN s
    ELSE Sub(s, 1, i - 1) \o by \o ReplaceCh(From(s, i + 1), c, by)

LowerAlpha == "abcdefghijklmnopqrstuvwxyz"
UpperAlpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
HexUp == "0123456789ABCDEF"

UpperCh(c) == LET i == Idx(LowerAlpha, c) IN IF i = 0 THEN c ELSE Ch(UpperAlpha, i)
RECURSIVE ToUpper(_)
ToUpper(s) == IF s = "" THEN "" ELSE UpperCh(Ch(s, 1)) \o ToUpper(From(s, 2))

LowerCh(c) == LET i == Idx(UpperAlpha, c) IN IF i = 0 THEN c ELSE Ch(LowerAlpha, i)
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o ToLower(From(s, 2))

\* Sets and sequences.
LastOf(seq) == seq[Len(seq)]
FrontOf(seq) == SubSeq(seq, 1, Len(seq) - 1)

(***************************************************************************)
(* Splitting of a methods argument: "GET, put PATCH" -> <<"GET","PUT",...>> *)
(***************************************************************************)
RECURSIVE SplitMethods(_)
SplitMethods(s) ==
    IF s = "" THEN <<>>
    ELSE IF Ch(s, 1) \in {",", " "} THEN SplitMethods(From(s, 2))
    ELSE LET a == Idx(s, ",")
             b == Idx(s, " ")
             i == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b
         IN IF i = 0 THEN <<ToUpper(s)>>
            ELSE <<ToUpper(Sub(s, 1, i - 1))>> \o SplitMethods(From(s, i + 1))
=============================================================================
