INIT Init
NEXT Next
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
