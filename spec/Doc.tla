-------------------------------- MODULE Doc --------------------------------
(* Package definitions and resolved contexts kept in files.  The state maps a  *)
(* path to the document it holds; saving replaces it by what the format and    *)
(* the options carry of the document, loading gives it back.  A document is a  *)
(* record field -> value, an absent optional value being <<>>.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
PkgFields == {"name", "version", "description", "authors", "requires", "build_requires", "private_build_requires", "variants", "tools",
  "commands", "build_command", "build_system", "pre_commands", "post_commands", "pre_test_commands", "pre_build_commands", "tests",
  "requires_rez_version", "uuid", "help", "relocatable", "cachable", "timestamp", "revision", "changelog", "release_message",
  "previous_version", "previous_revision", "vcs", "format_version", "base", "has_plugins", "plugin_for", "hashed_variants", "preprocess"}
PyFields == {"name", "version", "description", "authors", "requires", "build_requires", "variants", "tools"}
Structured == {"yaml", "yml", "json", "yaml.gz", "yml.gz", "json.gz", "toml"}
(* the fields written for a format under options; opt.inc/opt.exc are sequences: <<>> or <<set of names as a sequence>> *)
Rng(q) == { q[i] : i \in 1..Len(q) }
Carries(fmt, opt) ==
  CASE fmt \in {"bin", "binstr", "serde"} -> PkgFields
    [] fmt = "ctx" -> {}
    [] OTHER -> LET base == IF fmt = "py" THEN PyFields ELSE PkgFields
                    ex == base \ (Rng(opt.exc) \cap {"description", "help", "authors", "tools"})
                IN IF ~opt.only THEN ex ELSE ex \cap ({"name"} \cup (Rng(opt.inc) \cap {"version", "description", "authors", "requires", "build_requires", "variants", "tools"}))
Blank == <<>>
Carried(fmt, opt, d) == [ f \in PkgFields |-> IF f \in Carries(fmt, opt) THEN d[f] ELSE Blank ]
(* formats whose damaged (cut) files cannot be mistaken for whole ones *)
Sealed == {"json", "yaml.gz", "yml.gz", "json.gz", "bin", "rxt", "rxtb"}
Hold(d) == [st |-> "doc", d |-> d]
Damaged(sealed) == [st |-> IF sealed THEN "damaged" ELSE "unknown", d |-> <<>>]
Put(files, p, x) == [ q \in (DOMAIN files) \cup {p} |-> IF q = p THEN x ELSE files[q] ]
Save(files, p, fmt, opt, d) == Put(files, p, Hold(Carried(fmt, opt, d)))
SaveCtx(files, p, d) == Put(files, p, Hold(d))
Cut(files, p, fmt) == IF p \in DOMAIN files THEN Put(files, p, Damaged(fmt \in Sealed)) ELSE files
Del(files, p) == [ q \in (DOMAIN files) \ {p} |-> files[q] ]
=============================================================================
