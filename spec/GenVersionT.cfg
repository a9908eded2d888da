SPECIFICATION Spec
CONSTANTS Toks <- QToks
          MaxLen = 3
          Emit = TRUE
INVARIANTS Refl Anti Trans
CHECK_DEADLOCK FALSE
