SPECIFICATION Spec
CONSTANTS Toks <- QToks
          MaxLen = 2
          Emit = FALSE
INVARIANTS Refl Anti Trans
CHECK_DEADLOCK FALSE
