SPECIFICATION Spec
INVARIANTS TypeOK Agrees NoDangling WellFormed Aligned Monotone Partition Fresh OnLine FaultLine AllTokensRead
PROPERTIES AppendOnly Final Progress
CHECK_DEADLOCK FALSE
