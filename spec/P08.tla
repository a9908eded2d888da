-------------------------------- MODULE P08 --------------------------------
EXTENDS Doc, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
P08Init(init) == <<>>
CtxKeys == {"id", "name", "requirements", "environment_vars", "metadata", "created_at", "suite", "platform", "arch", "status", "config"}
Ok(st, d) == { "field " \o f \o " is loaded back as it was saved" : f \in { f \in PkgFields : st.got[f] # d[f] } }
CtxWhy(got, d) == { "context " \o f \o " is loaded back as it was saved" : f \in { f \in CtxKeys : got[f] # d[f] } }
  \cup Rs(Len(got.packages) # Len(d.packages), "the packages of the context are loaded back")
  \cup (IF Len(got.packages) # Len(d.packages) THEN {} ELSE
        { "package field " \o f \o " of a context is loaded back as it was saved" : f \in { f \in PkgFields : \E i \in 1..Len(d.packages) : got.packages[i][f] # d.packages[i][f] } })
P08Step(s, st) ==
  CASE st.op = "panic" -> [next |-> s, why |-> {"panic"}]
    [] st.op = "save" -> [next |-> IF st.ok THEN Save(s, st.p, st.fmt, st.opt, st.doc) ELSE s, why |-> Rs(~st.ok, "a valid package can be saved")]
    [] st.op = "savectx" -> [next |-> IF st.ok THEN SaveCtx(s, st.p, st.doc) ELSE s, why |-> Rs(~st.ok, "a context can be saved")]
    [] st.op = "cut" -> [next |-> Cut(s, st.p, st.fmt), why |-> {}]
    [] st.op = "del" -> [next |-> Del(s, st.p), why |-> {}]
    [] st.op \in {"load", "loadctx"} -> [next |-> s, why |->
         IF st.p \notin DOMAIN s THEN Rs(st.ok, "a missing file is not loaded")
         ELSE CASE s[st.p].st = "unknown" -> {}
                [] s[st.p].st = "damaged" -> Rs(st.ok, "a cut file is refused")
                [] OTHER -> IF ~st.ok THEN {"a saved document can be loaded"} ELSE IF st.op = "load" THEN Ok(st, s[st.p].d) ELSE CtxWhy(st.got, s[st.p].d)]
    (* text of a document and back, without a file *)
    [] st.op = "text" -> [next |-> s, why |-> IF ~st.ok THEN {"a document turned into text can be read back"} ELSE Ok(st, Carried(st.fmt, st.opt, st.doc))]
=============================================================================
