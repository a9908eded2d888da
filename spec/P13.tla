-------------------------------- MODULE P13 --------------------------------
EXTENDS Shell, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
P13Init(init) == init
ToSet(q) == { q[i] : i \in 1..Len(q) }
P13Step(c, st) == [next |-> c, why |->
  IF st.op = "panic" THEN {"panic"} ELSE
  LET r == ReadScript(st.script, st.shell)
      want == { <<st.names[i], st.vars[i][2]>> : i \in 1..Len(st.vars) }
      wanta == { <<st.anames[i], st.aliases[i][2]>> : i \in 1..Len(st.aliases) } IN
  Rs(~r.ok \/ ToSet(r.vars) # want \/ Len(r.vars) # Len(st.vars), "the script sets every variable to exactly its value, expanding and executing nothing")
  \cup Rs(r.ok /\ ToSet(r.als) # wanta, "the script defines every alias as exactly its command")
  \cup (IF st.shell \in {"bash", "zsh"} THEN
         Rs(st.ran, "sourcing the script executes nothing and reports nothing")
         \cup Rs(ToSet(st.seen) # ToSet(st.vars), "bash sourcing the script has every variable at exactly its value")
         \cup Rs(ToSet(st.seenal) # ToSet(st.aliases), "bash sourcing the script has every alias as exactly its command")
        ELSE {})]
=============================================================================
