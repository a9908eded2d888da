SPECIFICATION Spec
CONSTANTS MaxLen = 5 Emit = FALSE
  Alphabet = {34, 39, 92, 36, 96, 10, 37, 97, 32, 40}
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
