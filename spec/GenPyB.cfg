SPECIFICATION Spec
CONSTANTS MaxStmts = 3 Emit = TRUE InBody = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
