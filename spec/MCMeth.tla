------------------------------- MODULE MCMeth -------------------------------
(* C10, C18: histories of the setters of handlers, and every method. *)
EXTENDS MC

MethSetup == <<Res(0, "/a")>>
One_(o) == <<o>>
Ms == {"GET", "POST", "OPTIONS", "GET post", "!"} \cup (IF Wide THEN {"PUT", "get,OPTIONS", " delete ,"} ELSE {})
MethMenu(k, s, hist) ==
    {One_(SetH(1, m, "h" \o Str(k))) : m \in Ms}
    \cup {One_([op |-> "Set", set |-> "Implementation", i |-> 1, impl |-> [type |-> t, label |-> "i" \o Str(k)]])
            : t \in {"A", "B", "C"} \cup (IF Wide THEN {"D", "F", "H"} ELSE {})}
    \cup {One_([op |-> "Set", set |-> "WrapHandlerOf", i |-> 1, methods |-> m, mws |-> <<"m" \o Str(k)>>])
            : m \in {"GET", "*", "!", "POST OPTIONS"}}
    \cup {One_([op |-> "Set", set |-> "SharedData", i |-> 1, data |-> "d" \o Str(k)])}
MethProbes(s, hist) ==
    LET ms == <<"GET", "POST", "OPTIONS", "PUT", "DELETE", "Z">> IN
    [k \in DOMAIN ms |-> Req([Q("/a", "", FALSE) EXCEPT !.method = ms[k]])]
    \o <<[op |-> "Get", i |-> 1, get |-> "Handler", methods |-> "GET"],
         [op |-> "Get", i |-> 1, get |-> "Handler", methods |-> "!"],
         [op |-> "Get", i |-> 1, get |-> "Implementation", methods |-> "GET"]>>
=============================================================================
