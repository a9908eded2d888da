SPECIFICATION Spec
CONSTANTS Fmts = {"yaml", "yaml.gz", "json", "json.gz", "bin", "toml", "py"} MaxOps = 2 Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
