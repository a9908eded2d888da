SPECIFICATION Spec
CONSTANTS H = {1, 2}
          Files = 2
          MaxInc = 4
          Locked = TRUE
          MetaFirst = TRUE
          Ops = 5
INVARIANTS FoundWhole Once RemovedStays
CHECK_DEADLOCK FALSE
