SPECIFICATION Spec
CONSTANTS MaxStmts = 2 Emit = FALSE InBody = TRUE
INVARIANTS BodyLaw IfLaw ChainLaw DeMorgan OperandLaw Late
CHECK_DEADLOCK FALSE
