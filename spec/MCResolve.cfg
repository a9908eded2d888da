SPECIFICATION Spec
CONSTANT MaxRev = 4
INVARIANTS DoneSound DoneSolves OnePerName GreedyIsSolution
CHECK_DEADLOCK FALSE
