SPECIFICATION Spec
CONSTANTS MaxStmts = 3 Emit = TRUE InBody = FALSE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
