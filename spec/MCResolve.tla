----------------------------- MODULE MCResolve -----------------------------
(* The resolving process itself: requirements are taken in any order, the      *)
(* preferred package that everything known allows is selected (replacing an    *)
(* earlier choice), packages nothing requires any more are dropped, and a      *)
(* requirement for which nothing is left is recorded as failed.                *)
EXTENDS Resolve
CONSTANT MaxRev
VARIABLES p, s, f, rev
R(n, k, v, w, x) == [n |-> n, k |-> k, v |-> v, w |-> w, x |-> x]
On(n) == { <<>>, <<R(n, "any", 0, FALSE, FALSE)>>, <<R(n, "eq", 1, FALSE, FALSE)>>, <<R(n, "lt", 2, TRUE, FALSE)>>, <<R(n, "eq", 2, FALSE, TRUE)>> }
P(v, req) == [v |-> v, pre |-> FALSE, req |-> req, var |-> <<>>]
Requests == { <<R("a", "any", 0, FALSE, FALSE)>>,
              <<R("a", "any", 0, FALSE, FALSE), R("b", "any", 0, FALSE, FALSE)>>,
              <<R("b", "any", 0, FALSE, FALSE), R("a", "eq", 2, FALSE, TRUE)>>,
              <<R("a", "ge", 1, FALSE, FALSE), R("b", "eq", 1, TRUE, FALSE)>> }
Init == /\ \E q \in Requests, a1 \in On("b"), a2 \in On("b"), b1 \in On("a"), b2 \in On("a") :
             p = [req |-> q, fam |-> <<[n |-> "a", pk |-> <<P(1, a1), P(2, a2)>>], [n |-> "b", pk |-> <<P(1, b1), P(2, b2)>>]>>,
                  latest |-> TRUE, pre |-> FALSE, strict |-> FALSE]
        /\ s = <<>> /\ f = {} /\ rev = 0

A == Active(p, s)
AS == { A[i] : i \in 1..Len(A) }
Conflicted(n) == \E r \in AS : r.x /\ r.n = n /\ ~Met(s, r)
(* requirements still to be dealt with *)
Todo == { r \in AS : ~r.x /\ r \notin f /\ (~Met(s, r) \/ (Selected(s, r.n) /\ Conflicted(r.n))) }
Cand(n) == { k \in { Fam(p, n)[i] : i \in 1..Len(Fam(p, n)) } : \A r \in AS : r.n = n => (Allows(r, k.v) # r.x) }
Put(n, v) == IF Selected(s, n) THEN [ i \in 1..Len(s) |-> IF s[i].n = n THEN [n |-> n, v |-> v, var |-> 0] ELSE s[i] ]
             ELSE Append(s, [n |-> n, v |-> v, var |-> 0])
Prune(t) == LET W == Wanted(p, t) IN SelectSeq(t, LAMBDA e : e.n \in W)
Take(r) == /\ Cand(r.n) # {}
           /\ LET k == CHOOSE k \in Cand(r.n) : \A o \in Cand(r.n) : o = k \/ ~Better(p, o, k)
                  t == Prune(Put(r.n, k.v)) IN
              /\ s' = t
              /\ f' = { q \in f : \E i \in 1..Len(Active(p, t)) : Active(p, t)[i] = q }
              /\ rev' = IF Selected(s, r.n) THEN rev + 1 ELSE rev
Fail(r) == Cand(r.n) = {} /\ f' = f \cup {r} /\ UNCHANGED <<s, rev>>
Next == rev < MaxRev /\ (\E r \in Todo : Take(r) \/ Fail(r)) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, s, f, rev>>
Done == Todo = {}
Reported == { r \in f : r \in AS /\ (~Met(s, r) \/ Conflicted(r.n)) }
DoneSound == Done => Sound(p, s, Reported)
DoneSolves == Done /\ Reported = {} /\ ~Cyclic(p, s) => Solution(p, s)
OnePerName == \A i, j \in 1..Len(s) : i # j => s[i].n # s[j].n
GreedyIsSolution == LET g == Greedy(p, <<>>) IN g.ok /\ ~Cyclic(p, g.s) => Solution(p, g.s)
=============================================================================
