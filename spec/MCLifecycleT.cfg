SPECIFICATION Spec
CONSTANTS NF = 2
          NV = 2
          Depth = 0
          Gen = FALSE
          WithH = FALSE
INVARIANTS TypeOK VisibleComplete MarkedNeedsDir
PROPERTY NoSilentLoss
CHECK_DEADLOCK FALSE
