SPECIFICATION Spec
CONSTANTS NR = 3 NN = 2 NV = 3 NK = 3 Depth = 12 WithH = TRUE Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
