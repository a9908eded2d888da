SPECIFICATION Spec
CONSTANT MaxRev = 12
INVARIANTS DoneSound DoneSolves OnePerName GreedyIsSolution
CHECK_DEADLOCK FALSE
