SPECIFICATION Spec
CONSTANTS MaxStmts = 4 Emit = FALSE InBody = FALSE
INVARIANTS IfLaw ChainLaw DeMorgan OperandLaw Late
CHECK_DEADLOCK FALSE
