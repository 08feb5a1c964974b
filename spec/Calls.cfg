SPECIFICATION Spec
INVARIANTS OnePerCall OpenOK KeptOK
CHECK_DEADLOCK FALSE
