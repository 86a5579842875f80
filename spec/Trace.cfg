INIT Init
NEXT Next
CONSTANT Pats <- TracePats
CONSTANT EscTable <- TraceEsc
CONSTANT Impls <- TraceImpls
CONSTANT MethodOrder <- TraceMethods
INVARIANT Invariant
CHECK_DEADLOCK FALSE
