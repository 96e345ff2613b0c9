SPECIFICATION Fair
INVARIANTS TypeOK NeverStuck
PROPERTIES Termination
CHECK_DEADLOCK FALSE
