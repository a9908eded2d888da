-------------------------------- MODULE P09 --------------------------------
EXTENDS Store, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
P09Init(init) == LET A(x) == [ r \in 1..init.nr |-> [ n \in 1..Len(init.names) |-> [ v \in 1..Len(init.vers) |-> x ] ] ] IN [c |-> A(0), mk |-> A(-1)]
P09Step(s, st) ==
  LET t == [c |-> st.c, mk |-> st.mk] IN
  IF st.op = "panic" THEN [next |-> t, why |-> {"panic"}]
  ELSE [next |-> t, why |->
    Rs(st.escapes # 0, "nothing outside the repositories is written")
    \cup Rs(st.extra # 0, "no unexpected packages appear")
    \cup (IF Murky(s, st) THEN Rs(~MurkyStep(s, st, t), "an operation touches only the package it names")
          ELSE LET e == Apply(s, st) IN
          IF st.hit = 0 THEN
            Rs(t # e.s, CASE st.op = "cp" -> "a copy produces exactly the source at the destination and changes nothing else"
                          [] st.op = "mv" -> "a move transfers exactly the named package"
                          [] OTHER -> "a removal removes exactly what it names")
            \cup Rs(st.res # e.res, "an operation reports what it did")
          ELSE
            Rs(~Cut(s, st, t), "an interrupted operation loses nothing it was not asked to remove")
            \cup Rs(st.mode = "fail" /\ st.res = "ok" /\ t # e.s, "an operation that failed says so"))]
=============================================================================
