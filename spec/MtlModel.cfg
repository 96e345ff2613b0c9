SPECIFICATION Spec
INVARIANTS TypeOK Agrees NoLeak OnLine FaultLine
PROPERTIES OneAtATime NameKept AppendOnly Final Progress
CHECK_DEADLOCK FALSE
