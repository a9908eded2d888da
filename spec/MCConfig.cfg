SPECIFICATION Spec
CONSTANTS Gen = FALSE
          Vals = {"1"}
INVARIANTS Good ReplaceGood
CHECK_DEADLOCK FALSE
