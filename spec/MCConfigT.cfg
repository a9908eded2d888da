SPECIFICATION Spec
CONSTANTS Gen = FALSE
          Vals = {"1", "2"}
INVARIANTS Good ReplaceGood
CHECK_DEADLOCK FALSE
