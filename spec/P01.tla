-------------------------------- MODULE P01 --------------------------------
(* Conformance: the recorded parse results and the recorded comparison matrix  *)
(* of a universe of texts, against Version.tla.                                *)
EXTENDS Version, Walk

P01Init(init) == [u |-> init.u, p |-> TLCEval([ i \in 1..Len(init.u) |-> Parse(init.u[i]) ])]

Good(s) == { i \in DOMAIN s.u : s.p[i].ok }

(* op "ver": one text;  "row": comparisons of i with every j;  "mat": whole matrix *)
P01Step(s, st) ==
  LET why ==
    IF st.op = "ver" THEN
      LET v == s.p[st.i] IN
      (IF st.ok = v.ok THEN {} ELSE {"accepts exactly the version language"})
      \cup (IF st.ok /\ v.ok /\ st.text # TextOf(s.u[st.i]) THEN {"a version prints as it was written"} ELSE {})
    ELSE IF st.op = "row" THEN
      LET i == st.i IN
      (IF \E j \in Good(s) : st.c[j] # Cmp(s.p[i], s.p[j]) THEN {"comparison follows the version order"} ELSE {})
      \cup (IF \E j \in Good(s) : (st.e[j] = 1) # (Cmp(s.p[i], s.p[j]) = 0) THEN {"equality agrees with comparison"} ELSE {})
      \cup (IF \E j \in Good(s) : st.e[j] = 1 /\ st.h[j] # 1 THEN {"equal versions have equal hashes"} ELSE {})
    ELSE IF st.op = "mat" THEN
      LET M == st.c
          G == Good(s)
          Pad(i, j) == ZeroPadded(s.p[i], s.p[j])
          Anti == \E i, j \in G : M[i][j] # 0 - M[j][i]
          Broken == { t \in G \X G \X G :
                        LET i == t[1] j == t[2] k == t[3] IN
                        /\ M[i][j] <= 0 /\ M[j][k] <= 0
                        /\ ~(M[i][k] <= 0 /\ (M[i][k] = 0 => (M[i][j] = 0 /\ M[j][k] = 0))) }
          New == { t \in Broken : ~(Pad(t[1], t[2]) \/ Pad(t[2], t[3]) \/ Pad(t[1], t[3])) }
      IN (IF Anti THEN {"comparison is antisymmetric"} ELSE {})
         \cup (IF New # {} THEN {"comparison is transitive"} ELSE {})
         \cup (IF Broken \ New # {} THEN {"transitive across zero-padded versions"} ELSE {})
    ELSE {"unknown operation"}
  IN [why |-> why, next |-> s]
=============================================================================
