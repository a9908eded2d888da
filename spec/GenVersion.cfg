SPECIFICATION Spec
CONSTANTS Toks <- FToks
          MaxLen = 2
          Emit = TRUE
INVARIANTS Refl Anti Trans
CHECK_DEADLOCK FALSE
