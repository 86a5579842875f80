-------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* Request paths (cleaning, escaping) and URL templates (splitting).       *)
(***************************************************************************)
EXTENDS Strs

\* Percent-encodings of the characters outside of the printable ASCII range
\* that occur in the scenarios: a record from a character to its encoding.
CONSTANT EscTable

-----------------------------------------------------------------------------
(* Escaping *)

\* The printable ASCII characters in the order of their codes, from 0x20.
Printable ==
    " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
HexOf(n) == Ch(HexUp, (n \div 16) + 1) \o Ch(HexUp, (n % 16) + 1)
PctOf == [c \in {Ch(Printable, i) : i \in 1..Len(Printable)} |-> "%" \o HexOf(31 + Idx(Printable, c))]
AlnumEtc == LowerAlpha \o UpperAlpha \o Digits \o "-_.~$&+,/:;=@"

EscCh(c) == IF HasCh(AlnumEtc, c) THEN c
            ELSE IF c \in DOMAIN PctOf THEN PctOf[c]
            ELSE EscTable[c]
\* The default encoding of a decoded path.
RECURSIVE EscPathRec(_)
EscPathRec(s) == IF s = "" THEN "" ELSE EscCh(Ch(s, 1)) \o EscPathRec(From(s, 2))
EscPath(s) == IF s = "*" THEN "*" ELSE EscPathRec(s)

\* The encoding of a path segment.
RECURSIVE EscSeg(_)
EscSeg(s) == IF s = "" THEN ""
             ELSE (IF Ch(s, 1) \in {"/", ";", ",", "?"} THEN PctOf[Ch(s, 1)] ELSE EscCh(Ch(s, 1)))
                  \o EscSeg(From(s, 2))

HexVal(c) == LET i == Idx(HexUp, UpperCh(c)) IN i - 1
UnTable == {c \in DOMAIN EscTable : TRUE}
\* Decoding: [ok, s].
RECURSIVE Unesc(_)
Unesc(s) ==
    LET i == Idx(s, "%") IN
    IF i = 0 THEN [ok |-> TRUE, s |-> s]
    ELSE IF \E c \in UnTable : HasPrefix(From(s, i), EscTable[c])
    THEN LET c == CHOOSE x \in UnTable : HasPrefix(From(s, i), EscTable[x])
             r == Unesc(From(s, i + Len(EscTable[c])))
         IN [ok |-> r.ok, s |-> Sub(s, 1, i - 1) \o c \o r.s]
    ELSE IF i + 2 > Len(s) \/ HexVal(Ch(s, i + 1)) < 0 \/ HexVal(Ch(s, i + 2)) < 0
    THEN [ok |-> FALSE, s |-> ""]
    ELSE LET n == 16 * HexVal(Ch(s, i + 1)) + HexVal(Ch(s, i + 2))
             r == Unesc(From(s, i + 3))
         IN IF n < 32 \/ n > 126 THEN Assert(FALSE, <<"undecodable", s>>)
            ELSE [ok |-> r.ok, s |-> Sub(s, 1, i - 1) \o Ch(Printable, n - 31) \o r.s]

-----------------------------------------------------------------------------
(* Cleaning of a rooted path: no empty, "." and ".." segments *)

RECURSIVE CleanSegs(_, _)
CleanSegs(segs, acc) ==
    IF segs = <<>> THEN acc
    ELSE LET g == Head(segs) IN
         CleanSegs(Tail(segs),
                   IF g = "" \/ g = "." THEN acc
                   ELSE IF g = ".." THEN IF acc = <<>> THEN acc ELSE FrontOf(acc)
                   ELSE Append(acc, g))
Clean(path) == "/" \o JoinWith(CleanSegs(SplitAt(path, "/"), <<>>), "/")

TrailingSlash(path) == path # "" /\ path # "/" /\ HasSuffix(path, "/")

\* What a request's path is worked with as: [path, raw, unclean].
WorkPath(urlPath, urlRawPath) ==
    LET raw == urlRawPath # ""
        p0 == IF raw THEN urlRawPath ELSE urlPath
        p1 == IF Len(p0) > 1 /\ Ch(p0, 1) # "/" THEN "/" \o p0 ELSE p0
        c0 == Clean(p1)
        c1 == IF Ch(p1, Len(p1)) = "/" /\ c0 # "/" THEN c0 \o "/" ELSE c0
    IN IF Len(p0) <= 1 THEN [path |-> p0, raw |-> raw, unclean |-> FALSE]
       ELSE [path |-> IF c1 # p1 THEN c1 ELSE p1, raw |-> raw, unclean |-> c1 # p1]

-----------------------------------------------------------------------------
(* URL templates *)

\* "%2f" stands for a slash inside a segment template.
RECURSIVE SlashDecode(_)
SlashDecode(s) ==
    IF Len(s) < 3 THEN s
    ELSE IF Sub(s, 1, 3) \in {"%2f", "%2F"} THEN "/" \o SlashDecode(From(s, 4))
    ELSE Ch(s, 1) \o SlashDecode(From(s, 2))

\* [seg, rest]: the next segment of a path template.
NextSeg(p) ==
    IF p = "" THEN [seg |-> "", rest |-> ""]
    ELSE LET q == IF Ch(p, 1) = "/" THEN From(p, 2) ELSE p
             i == Idx(q, "/")
         IN IF i = 0 THEN [seg |-> SlashDecode(q), rest |-> ""]
            ELSE [seg |-> SlashDecode(Sub(q, 1, i - 1)), rest |-> From(q, i)]

\* All segments up to the first empty one: [segs, rest].
RECURSIVE SegsOf(_)
SegsOf(p) ==
    LET n == NextSeg(p) IN
    IF n.seg = "" THEN [segs |-> <<>>, rest |-> TrimPrefix(n.rest, "/")]
    ELSE LET r == SegsOf(n.rest) IN [segs |-> <<n.seg>> \o r.segs, rest |-> r.rest]

\* [ok, host, path, secure, tslash]
SplitBad == [ok |-> FALSE, host |-> "", path |-> "", secure |-> FALSE, tslash |-> FALSE]
SplitHostPath(u) ==
    LET secure == HasPrefix(u, "https://")
        abs == secure \/ HasPrefix(u, "http://")
        rest == IF secure THEN From(u, 9) ELSE IF abs THEN From(u, 8) ELSE u
        i == Idx(rest, "/")
        host == IF ~abs THEN "" ELSE IF i = 0 THEN rest ELSE Sub(rest, 1, i - 1)
        path == IF ~abs THEN rest ELSE IF i = 0 THEN "" ELSE From(rest, i)
    IN IF u = "" THEN SplitBad
       ELSE IF abs /\ i = 0
       THEN IF host = "" THEN SplitBad
            ELSE [ok |-> TRUE, host |-> host, path |-> "", secure |-> secure, tslash |-> FALSE]
       ELSE IF host # "" /\ path = "/"
       THEN [ok |-> TRUE, host |-> host, path |-> "", secure |-> secure, tslash |-> TRUE]
       ELSE LET ts == Len(path) > 1 /\ HasSuffix(path, "/") IN
            [ok |-> TRUE, host |-> host, path |-> IF ts THEN FrontOf(path) ELSE path,
             secure |-> secure, tslash |-> ts]

\* The template of a resource that is being constructed:
\* [ok, host, prefix, last, secure, tslash]
SplitURL(u) ==
    LET h == SplitHostPath(u)
        i == LastIdx(h.path, "/")
    IN IF ~h.ok THEN [ok |-> FALSE]
       ELSE IF h.path \in {"", "/"} \/ i = 0
       THEN [ok |-> TRUE, host |-> h.host, prefix |-> "",
             last |-> IF i = 0 THEN SlashDecode(h.path) ELSE h.path,
             secure |-> h.secure, tslash |-> h.tslash]
       ELSE [ok |-> TRUE, host |-> h.host, prefix |-> Sub(h.path, 1, i - 1),
             last |-> SlashDecode(From(h.path, i + 1)),
             secure |-> h.secure, tslash |-> h.tslash]

\* The template of a host: [ok, host, secure, tslash]
SplitHost(u) ==
    LET secure == HasPrefix(u, "https://")
        rest == IF secure THEN From(u, 9) ELSE TrimPrefix(u, "http://")
        i == Idx(rest, "/")
    IN IF u = "" THEN [ok |-> FALSE]
       ELSE IF i = 0 THEN [ok |-> TRUE, host |-> rest, secure |-> secure, tslash |-> FALSE]
       ELSE IF i = Len(rest)
       THEN [ok |-> TRUE, host |-> Sub(rest, 1, i - 1), secure |-> secure, tslash |-> TRUE]
       ELSE [ok |-> FALSE]

\* The path template of resources to be created: [ok, root, segs, tslash]
PathSegs(p) ==
    IF p = "" THEN [ok |-> TRUE, root |-> FALSE, segs |-> <<>>]
    ELSE IF p = "/" THEN [ok |-> TRUE, root |-> TRUE, segs |-> <<>>]
    ELSE LET r == SegsOf(p) IN
         [ok |-> r.segs # <<>> /\ r.rest = "", root |-> FALSE, segs |-> r.segs]

\* The host of a request without the port.
HostName(h) ==
    LET c == LastIdx(h, ":") IN
    IF c = 0 THEN h
    ELSE IF Ch(h, 1) = "["
    THEN LET b == Idx(h, "]") IN IF b = c - 1 THEN Sub(h, 2, b - 1) ELSE h
    ELSE IF Idx(h, ":") = c THEN Sub(h, 1, c - 1) ELSE h
=============================================================================
