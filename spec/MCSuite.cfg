SPECIFICATION Spec
CONSTANTS NC = 2 Aliases = {"x", "a_x"} Tls = {"t"} Prefixes <- PreQ Prios = {0, 1} NPlaces = 1 Depth = 0 Gen = FALSE
INVARIANTS UniqueNames Sound Complete Ranked Highest
PROPERTY Local
CHECK_DEADLOCK FALSE
