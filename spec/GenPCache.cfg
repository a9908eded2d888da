SPECIFICATION Spec
CONSTANTS NH = 4
          Depth = 8
          Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
