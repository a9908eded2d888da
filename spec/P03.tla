-------------------------------- MODULE P03 --------------------------------
EXTENDS Req, Walk
P03Init(init) == [t |-> init.u, u |-> TLCEval([ i \in 1..Len(init.u) |-> Parse(init.u[i]) ])]
Rs(c, t) == IF c THEN {t} ELSE {}
Obs(h) == { i \in DOMAIN h : h[i] = 1 }
Den(s, c) == LET pv == TLCEval([ j \in 1..Len(c) |-> IF c[j].k = "wild" THEN Bad ELSE Parse(c[j].v) ]) IN
             { i \in DOMAIN s.u : \A j \in 1..Len(c) : AtomHas(c[j], pv[j], s.t[i], s.u[i]) }

(* conditions in brackets *)
CondHolds(cd, e) == CASE cd.k = "platform" -> (cd.p = e.platform /\ (cd.arch = "" \/ cd.arch = e.arch)) # cd.neg
                      [] cd.k = "env" -> (\E i \in 1..Len(e.env) : e.env[i][1] = cd.p /\ (cd.val = "" \/ e.env[i][2] = cd.val)) # cd.neg
PlatOk(cds, e) == LET P == SelectSeq(cds, LAMBDA c : c.k = "platform") IN
   \* a failing exclusion rules out, unless an earlier positive condition already held; otherwise any positive condition suffices
   IF P = <<>> THEN TRUE
   ELSE LET Pos == { i \in 1..Len(P) : ~P[i].neg /\ CondHolds(P[i], e) }
            Neg == { i \in 1..Len(P) : P[i].neg /\ ~CondHolds(P[i], e) }
            first == { i \in Pos \cup Neg : \A j \in Pos \cup Neg : i <= j }
        IN IF first = {} THEN \A i \in 1..Len(P) : P[i].neg ELSE first \subseteq Pos
EnvOk(cds, e) == \A i \in 1..Len(cds) : cds[i].k = "env" => CondHolds(cds[i], e)

P03Step(s, st) ==
  [next |-> s, why |->
    IF st.op = "req" THEN
      LET D == Den(s, st.ast.c) IN
      IF st.ok # 1 THEN {"a well-formed requirement is accepted"} ELSE
      Rs(st.name # st.ast.name \/ st.ns # st.ast.ns, "name and namespace are read")
      \cup Rs(st.weak # st.ast.weak \/ st.conflict # st.ast.conflict, "weak and conflict markers are read")
      \cup Rs(Obs(st.has) # D, "a requirement selects exactly the versions its constraint allows")
      \cup Rs(st.rok # 1 \/ Obs(st.rhas) # D \/ st.rname # st.ast.name \/ st.rns # st.ast.ns
              \/ st.rweak # st.ast.weak \/ st.rconflict # st.ast.conflict, "printing and reading a requirement preserves it")
      \cup Rs(st.jhas # st.has, "a saved requirement selects the same versions")
      \cup (IF st.pkg = 0 THEN {} ELSE
            Rs(st.pok # 1 \/ st.pname # st.ast.name \/ st.pweak # st.ast.weak \/ st.pconflict # st.ast.conflict, "a package requirement is read the same way")
            \cup Rs(st.pok = 1 /\ Obs(st.phas) # D, "a package requirement selects the same versions")
            \cup Rs(st.pok = 1 /\ (st.prok # 1 \/ Obs(st.prhas) # D), "printing and reading a package requirement preserves it"))
    ELSE IF st.op = "cond" THEN
      IF st.ok # 1 THEN {"a well-formed condition is accepted"} ELSE
      Rs((st.plat = 1) # PlatOk(st.cds, st.e), "platform conditions hold exactly where they say")
      \cup Rs((st.env = 1) # EnvOk(st.cds, st.e), "environment conditions hold exactly where they say")
      \cup Rs(st.rplat # st.plat \/ st.renv # st.env, "printing and reading conditions preserves them")
    ELSE {"panic or unknown operation"}]
=============================================================================
