SPECIFICATION Spec
CONSTANTS MaxStmts = 4 Emit = TRUE InBody = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
