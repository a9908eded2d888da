SPECIFICATION Spec
CONSTANTS NC = 3 Aliases = {"x", "a_x"} Tls = {"t", "u"} Prefixes <- PreQ Prios = {0, 1} NPlaces = 1 Depth = 0 Gen = FALSE
INVARIANTS UniqueNames Sound Complete Ranked Highest
PROPERTY Local
CHECK_DEADLOCK FALSE
