SPECIFICATION Spec
CONSTANTS Toks <- FToks
          MaxLen = 2
          Emit = FALSE
INVARIANTS Refl Anti Trans
CHECK_DEADLOCK FALSE
