-------------------------------- MODULE Calls --------------------------------
(* Calls as data, for the bounded models. *)
EXTENDS Props, Json, IOUtils

Head_ == JsonDeserialize(IOEnv.VERIF_HEADER)
MCPats == Head_.pats
MCEsc == Head_.esc
MCImpls == Head_.impls
MCMethods == Head_.methods

-----------------------------------------------------------------------------
(* Calls *)

PreRes(u) == [op |-> "MkRes", u |-> u, impl |-> [type |-> "", label |-> ""], uc |-> FALSE, cfg |-> <<>>]
PreHost(u) == [op |-> "MkHost", u |-> u, impl |-> [type |-> "", label |-> ""], uc |-> FALSE, cfg |-> <<>>]
HostOp(u) == [op |-> "Host", u |-> u, uc |-> FALSE, cfg |-> <<>>]
Res(i, u) == [op |-> "Resource", i |-> i, u |-> u, uc |-> FALSE, cfg |-> <<>>]
ResUC(i, u, cfg) == [op |-> "Resource", i |-> i, u |-> u, uc |-> TRUE, cfg |-> cfg]
H(i, u, ms, h) == [op |-> "SetAt", set |-> "Handler", i |-> i, u |-> u, methods |-> ms, h |-> h]
SetH(i, ms, h) == [op |-> "Set", set |-> "Handler", i |-> i, methods |-> ms, h |-> h]
Cfg(i, u, cfg) == [op |-> "SetAt", set |-> "Configuration", i |-> i, u |-> u, cfg |-> cfg]
SetCfg_(i, cfg) == [op |-> "Set", set |-> "Configuration", i |-> i, cfg |-> cfg]
Wrap(i, u, what, mws) == [op |-> "SetAt", set |-> what, i |-> i, u |-> u, mws |-> mws]
Redir(i, u, what, url, code) == [op |-> "SetAt", set |-> what, i |-> i, u |-> u, url |-> url, code |-> code]
Reg(i, r) == [op |-> "Register", i |-> i, r |-> r]
RegHost(r) == [op |-> "RegisterHost", r |-> r]
RegUnder(i, u, r) == [op |-> "RegisterUnder", i |-> i, u |-> u, r |-> r]
Find(i, u) == [op |-> "Registered", i |-> i, u |-> u]
\* A request.
Q(path, host, tls) ==
    [host |-> host, uhost |-> "", uscheme |-> "", path |-> path, rawpath |-> "", query |-> "",
     tls |-> tls, method |-> "GET", beh |-> <<>>, names |-> <<>>, keys |-> <<>>, nest |-> <<>>]
Req(q) == [op |-> "Req", i |-> 0, q |-> q]

\* The sequences of the elements of S with at most n of them.
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* A sequence of the strings s as a path.
RECURSIVE PathOf(_)
PathOf(s) == IF s = <<>> THEN "" ELSE "/" \o Head(s) \o PathOf(Tail(s))
Str(n) == ToString(n)
\* Where in the calls so far the k-th one with the operation op is, or 0.
Position(hist, ops) ==
    LET k == {j \in DOMAIN hist : hist[j].op \in ops} IN
    IF k = {} THEN 0 ELSE CHOOSE j \in k : \A m \in k : j <= m
LastPosition(hist, ops) ==
    LET k == {j \in DOMAIN hist : hist[j].op \in ops} IN
    IF k = {} THEN 0 ELSE CHOOSE j \in k : \A m \in k : m <= j
=============================================================================
