-------------------------------- MODULE P07 --------------------------------
EXTENDS Lifecycle, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
SeqSet(q) == { q[i] : i \in 1..Len(q) }
Disk(o) == [pay |-> o.pay, mark |-> o.mark, dir |-> o.dir]
P07Init(init) == LET F == 1..Len(init.fams) V == 1..Len(init.vers) IN
   [pay |-> [i \in F |-> [j \in V |-> 0]], mark |-> [i \in F |-> [j \in V |-> -1]], dir |-> [i \in F |-> 0]]
P07Step(s, st) ==
  IF st.op = "panic" THEN [next |-> s, why |-> {"panic"}] ELSE
  LET t == Disk(st.obs)
      e == Apply(s, st)
      whole == t = e.s /\ st.res = e.res
  IN [next |-> t, why |->
    Rs(st.obs.outer # 1 \/ st.obs.extra # 0, "nothing outside the package is touched")
    \cup Rs(\E i \in Fs(t) : SeqSet(st.obs.vis[i]) # Visible(t, i) \/ Len(st.obs.vis[i]) # Cardinality(Visible(t, i)), "a listing shows exactly the packages that are not ignored")
    \cup Rs(\E i \in Fs(t) : \A j \in Vs(t) : t.pay[i][j] # 2 /\ (SeqSet(st.obs.sol[i]) # Visible(t, i) \/ Len(st.obs.sol[i]) # Cardinality(Visible(t, i))), "the solver is offered exactly the packages that are not ignored")
    \cup Rs(st.obs.fams # t.dir, "families listed are those that exist")
    \cup (IF st.hit = 0 THEN
            Rs(t # e.s, "an operation has exactly its documented effect") \cup Rs(st.res # e.res, "an operation reports what it did")
          ELSE
            Rs(~Cut(s, st, t), "an interrupted operation leaves other packages alone and no incomplete package visible")
            \cup Rs(st.mode = "fail" /\ st.res # "err" /\ ~whole, "an operation that failed says so"))]
=============================================================================
