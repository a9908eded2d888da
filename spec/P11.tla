-------------------------------- MODULE P11 --------------------------------
EXTENDS P10
P11Init(init) == P10Init(init)
AnyBroken(s) == \E e \in Visible(s) : ~e.ok
P11Step(s, st) ==
  CASE st.op = "search" -> [next |-> s, why |->
         IF st.code # 0 THEN {"a search succeeds"} ELSE
         LET want == Search(s, st.q)
             w == [ i \in 1..Len(want) |-> <<want[i].p.name, want[i].p.ver, Score(st.q, want[i].p)>> ]
             got == [ i \in 1..Len(st.got) |-> <<st.got[i].name, st.got[i].ver, st.got[i].score>> ]
         IN IF got = w THEN {} ELSE IF SetOf(got) # SetOf(w) THEN {"a search finds exactly the packages that match, with their score"} ELSE {"the results of a search come in the order asked for"}]
    [] st.op = "badsearch" -> [next |-> s, why |-> Rs(st.code = 0, "a search that cannot be understood is refused")]
    [] st.op = "form" -> [next |-> s, why |-> Rs(st.code # 0, "a search succeeds in every output form")]
    [] st.op = "depends" -> [next |-> s, why |->
         IF AnyBroken(s) /\ st.code # 0 THEN {}
         ELSE Rs(st.code # 0, "depends succeeds") \cup
              Rs(st.code = 0 /\ ([ i \in 1..Len(st.got) |-> SetOf(st.got[i]) ] # Levels(s, st.target, st.depth, st.b, st.p) \/ \E i \in 1..Len(st.got) : Len(st.got[i]) # Cardinality(SetOf(st.got[i]))),
                 "depends lists the dependents by distance")]
    [] st.op = "tree" -> [next |-> s, why |-> IF \E e \in Visible(s) : (~e.ok /\ e.v = "") \/ (e.ok /\ e.p.name # e.f) THEN {} ELSE
         Rs([ i \in 1..Len(st.got) |-> SetOf(st.got[i]) ] # <<{st.target}>> \o Levels(s, st.target, st.depth, st.b, st.p) \/ \E i \in 1..Len(st.got) : Len(st.got[i]) # Cardinality(SetOf(st.got[i])), "the reverse dependency tree has the dependents by distance")]
    [] st.op = "plugins" -> [next |-> s, why |-> IF \E e \in Visible(s) : ~e.ok /\ e.v = "" THEN {} ELSE Rs(SetOf(st.got) # Plugins(s, st.target) \/ Len(st.got) # Cardinality(SetOf(st.got)), "the plugins of a package are the families whose newest package says so")]
    [] OTHER -> P10Step(s, st)
=============================================================================
