SPECIFICATION Spec
CONSTANTS MaxLen = 3 Emit = TRUE
  Alphabet = {34, 39, 92, 36, 96, 10, 37, 97, 32, 40}
INVARIANTS RoundTrip Emitted
CHECK_DEADLOCK FALSE
