SPECIFICATION Spec
CONSTANTS MaxStmts = 2 Emit = FALSE InBody = FALSE
INVARIANTS IfLaw ChainLaw DeMorgan OperandLaw Late
CHECK_DEADLOCK FALSE
