------------------------------ MODULE Resolve ------------------------------
(* What it means to resolve a request against a set of packages.               *)
(* A problem is [req, fam, latest, pre, strict]:                               *)
(*   req   sequence of requirements [n, k, v, w, x]  (w weak, x conflict)      *)
(*   fam   sequence of families [n, pk]; pk is a sequence of packages          *)
(*         [v, pre, req, var]; v = 0 is a package without a version;           *)
(*         var a sequence of variants, each a sequence of requirements         *)
(* A selection is a sequence of [n, v, var]; var = 0 when no variant is used.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Allows(r, v) == \/ v = 0
                \/ CASE r.k = "any" -> TRUE
                     [] r.k = "eq" -> v = r.v
                     [] r.k = "pre" -> v = r.v
                     [] r.k = "ne" -> v # r.v
                     [] r.k = "ge" -> v >= r.v
                     [] r.k = "gt" -> v > r.v
                     [] r.k = "le" -> v <= r.v
                     [] r.k = "lt" -> v < r.v

Fam(p, n) == LET I == { i \in 1..Len(p.fam) : p.fam[i].n = n } IN
             IF I = {} THEN <<>> ELSE p.fam[CHOOSE i \in I : TRUE].pk
Pk(p, n, v) == LET F == Fam(p, n)
                   I == { i \in 1..Len(F) : F[i].v = v } IN F[CHOOSE i \in I : TRUE]
HasPk(p, n, v) == \E i \in 1..Len(Fam(p, n)) : Fam(p, n)[i].v = v

(* requirements that a selected package brings in *)
Brings(p, e) == LET k == Pk(p, e.n, e.v) IN k.req \o (IF e.var = 0 THEN <<>> ELSE k.var[e.var])

RECURSIVE FlatBrings(_, _, _)
FlatBrings(p, s, i) == IF i > Len(s) THEN <<>> ELSE Brings(p, s[i]) \o FlatBrings(p, s, i + 1)
Active(p, s) == p.req \o FlatBrings(p, s, 1)

Selected(s, n) == \E i \in 1..Len(s) : s[i].n = n
VerOf(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].n = n].v

(* is requirement r met by selection s *)
Met(s, r) == IF r.x THEN ~(Selected(s, r.n) /\ Allows(r, VerOf(s, r.n)))
             ELSE IF Selected(s, r.n) THEN Allows(r, VerOf(s, r.n)) ELSE r.w

RECURSIVE ReachFrom(_, _, _)
ReachFrom(p, s, R) ==
  LET N == R \cup { n \in { s[i].n : i \in 1..Len(s) } :
                     \E i \in 1..Len(s) : s[i].n \in R /\ \E j \in 1..Len(Brings(p, s[i])) :
                        LET r == Brings(p, s[i])[j] IN r.n = n /\ ~r.w /\ ~r.x } IN
  IF N = R THEN R ELSE ReachFrom(p, s, N)
Wanted(p, s) == ReachFrom(p, s, { p.req[i].n : i \in { j \in 1..Len(p.req) : ~p.req[j].w /\ ~p.req[j].x } })

(* dependency edges of a selection, and whether they form a cycle *)
Edges(p, s) == UNION { { <<s[i].n, r.n>> : r \in { Brings(p, s[i])[j] : j \in { q \in 1..Len(Brings(p, s[i])) : ~Brings(p, s[i])[q].x } } } : i \in 1..Len(s) }
RECURSIVE Succs(_, _)
Succs(E, S) == LET N == S \cup { e[2] : e \in { f \in E : f[1] \in S } } IN IF N = S THEN S ELSE Succs(E, N)
Cyclic(p, s) == LET E == Edges(p, s) IN \E e \in E : e[1] \in Succs(E, {e[2]})

(* ---- a result is sound ------------------------------------------------- *)
(* failed: the set of names of requirements reported as failed, with the       *)
(* requirements themselves in f                                                *)
Sound(p, s, f) ==
  LET A == Active(p, s) IN
  /\ \A i, j \in 1..Len(s) : i # j => s[i].n # s[j].n
  /\ \A i \in 1..Len(A) : ~Met(s, A[i]) => IF A[i].x THEN \E q \in f : q.n = A[i].n ELSE A[i] \in f

(* ---- taking the preferred package at every step ------------------------- *)
(* Walk the requirements in order; for the first one that is not met take the  *)
(* preferred package that every known requirement allows.  "unclear" when a    *)
(* choice would have to be revised, when nothing fits, or when several         *)
(* variants compete.                                                           *)
Better(p, a, b) == IF a.v = 0 \/ b.v = 0 THEN a.v # 0 /\ b.v = 0
                   ELSE IF p.latest THEN a.v > b.v ELSE a.v < b.v
RECURSIVE Greedy(_, _)
Greedy(p, s) ==
  LET A == TLCEval(Active(p, s))
      U == { i \in 1..Len(A) : ~A[i].x /\ ~Met(s, A[i]) }
  IN IF \E i \in 1..Len(A) : A[i].x /\ ~Met(s, A[i]) THEN [ok |-> FALSE, s |-> s]
     ELSE IF U = {} THEN [ok |-> TRUE, s |-> s]
     ELSE LET r == A[CHOOSE i \in U : \A j \in U : i <= j]
              F == Fam(p, r.n)
              C == { k \in { F[i] : i \in 1..Len(F) } :
                      /\ (~p.pre => ~k.pre)
                      /\ \A i \in 1..Len(A) : A[i].n = r.n => (Allows(A[i], k.v) # A[i].x) }
          IN IF Selected(s, r.n) \/ C = {} THEN [ok |-> FALSE, s |-> s]
             ELSE LET k == CHOOSE k \in C : \A o \in C : o = k \/ ~Better(p, o, k) IN
                  IF Len(k.var) > 1 THEN [ok |-> FALSE, s |-> s]
                  ELSE Greedy(p, Append(s, [n |-> r.n, v |-> k.v, var |-> Len(k.var)]))

(* ---- some selection meets everything (brute force, small problems) ------- *)
Names(p) == { p.fam[i].n : i \in 1..Len(p.fam) }
Choices(p, n) == {[n |-> n, v |-> -1, var |-> 0]} \cup
   UNION { LET k == Fam(p, n)[i] IN
           IF k.pre /\ ~p.pre THEN {}
           ELSE IF k.var = <<>> THEN {[n |-> n, v |-> k.v, var |-> 0]}
           ELSE { [n |-> n, v |-> k.v, var |-> j] : j \in 1..Len(k.var) } : i \in 1..Len(Fam(p, n)) }
RECURSIVE Sels(_, _)
Sels(p, i) == IF i = 0 THEN {<<>>}
              ELSE LET S == Sels(p, i - 1) IN
                   UNION { { IF c.v = -1 THEN s ELSE Append(s, c) : s \in S } : c \in Choices(p, p.fam[i].n) }
Solution(p, s) == LET A == Active(p, s) IN
                  /\ \A i \in 1..Len(A) : Met(s, A[i])
                  /\ { s[i].n : i \in 1..Len(s) } = Wanted(p, s)
                  /\ ~Cyclic(p, s)
(* one package that has requirements; everything it requires is a leaf *)
Plain(p) ==
  /\ \A i \in 1..Len(p.req) : ~p.req[i].w /\ ~p.req[i].x
  /\ \A i \in 1..Len(p.fam) : \A j \in 1..Len(p.fam[i].pk) : LET k == p.fam[i].pk[j] IN
       k.var = <<>> /\ ~k.pre /\ \A q \in 1..Len(k.req) : ~k.req[q].w /\ ~k.req[q].x
  /\ Cardinality({ i \in 1..Len(p.fam) : \E j \in 1..Len(p.fam[i].pk) : p.fam[i].pk[j].req # <<>> }) <= 1
Solvable(p) == \E s \in Sels(p, Len(p.fam)) : Solution(p, s)
=============================================================================
