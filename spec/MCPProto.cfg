SPECIFICATION Spec
CONSTANTS H = {1, 2}
          Files = 1
          MaxInc = 3
          Locked = TRUE
          MetaFirst = TRUE
          Ops = 4
INVARIANTS FoundWhole Once RemovedStays
CHECK_DEADLOCK FALSE
