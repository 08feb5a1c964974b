SPECIFICATION Spec
INVARIANTS VerdictOK NormOK BlameOK Emit
CHECK_DEADLOCK FALSE
