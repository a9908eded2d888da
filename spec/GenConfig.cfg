SPECIFICATION Spec
CONSTANTS Gen = TRUE
          Vals = {"1", "2"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
