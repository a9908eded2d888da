SPECIFICATION Spec
CONSTANTS NC = 4 Aliases = {"x", "a_x", "b_x"} Tls = {"t", "u"} Prefixes <- PreQ Prios = {0, 1} NPlaces = 3 Depth = 16 Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
