SPECIFICATION Spec
CONSTANTS NF = 2
          NV = 2
          Depth = 12
          Gen = TRUE
          WithH = TRUE
INVARIANTS VisibleComplete Emit
CHECK_DEADLOCK FALSE
