SPECIFICATION Spec
CONSTANTS NR = 2 NN = 1 NV = 2 NK = 2 Depth = 0 WithH = FALSE Gen = FALSE
INVARIANTS NothingLost CutAccepts
PROPERTY EndsRight
CHECK_DEADLOCK FALSE
