SPECIFICATION Spec
CONSTANTS Fmts = {"yaml", "json", "json.gz", "bin", "py"} MaxOps = 3 Emit = FALSE
INVARIANTS Stable Whole NameKept
CHECK_DEADLOCK FALSE
