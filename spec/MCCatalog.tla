----------------------------- MODULE MCCatalog -----------------------------
(* Repositories change under the user's hands: definitions are put, broken,     *)
(* dropped, hidden and shown again.  Mode "disk": two repositories of one        *)
(* family; mode "graph": every requirement graph over NF families.               *)
EXTENDS Catalog, Json
CONSTANTS Mode, NR, NF, NV, Depth, Gen
VARIABLES s, h
FN == <<"a", "b", "c", "d">>
VN == <<"1", "2", "10">>
FC == <<<<97>>, <<98>>, <<99>>, <<100>>>>
VC == <<<<49>>, <<50>>, <<49, 48>>>>
P(i, j, req) == [name |-> FN[i], nc |-> FC[i], ver |-> IF j = 0 THEN <<>> ELSE <<VC[j]>>, req |-> req, breq |-> {}, preq |-> {}, vreq |-> {}, plug |-> {},
                 desc |-> <<>>, tools |-> {}, rtext |-> {}, vtext |-> {}, hv |-> FALSE, ts |-> 0]
E(r, i, j, ok, req) == [r |-> r, f |-> FN[i], v |-> IF j = 0 THEN "" ELSE VN[j], fc |-> FC[i], vc |-> IF j = 0 THEN <<>> ELSE VC[j], ok |-> ok, p |-> P(i, j, req)]
K(r, i, j) == <<r, FN[i], IF j = 0 THEN "" ELSE VN[j]>>
Log(op, r, i, j) == h' = IF Gen THEN Append(h, [op |-> op, r |-> r, i |-> i, j |-> j]) ELSE h
Room == Gen => Len(h) < Depth
Do == /\ Room
      /\ \E r \in 1..NR, i \in 1..NF, j \in 0..NV :
           \/ s' = Put(s, E(r, i, j, TRUE, {})) /\ Log("put", r, i, j)
           \/ s' = Put(s, E(r, i, j, FALSE, {})) /\ Log("break", r, i, j)
           \/ s' = Drop(s, K(r, i, j)) /\ Log("drop", r, i, j)
           \/ s' = Hide(s, K(r, i, j)) /\ Log("hide", r, i, j)
           \/ s' = Unhide(s, K(r, i, j)) /\ Log("unhide", r, i, j)
Graphs == [ 1..NF -> SUBSET (1..NF) ]
G(g) == [ent |-> { E(1, i, 1, TRUE, { [n |-> FN[k], c |-> FALSE] : k \in g[i] }) : i \in 1..NF }, mk |-> {}]
Init == /\ h = <<>>
        /\ IF Mode = "graph" THEN \E g \in Graphs : s = G(g) ELSE s = [ent |-> {}, mk |-> {}]
Next == Mode = "disk" /\ Do
Spec == Init /\ [][Next]_<<s, h>>

SetOf(q) == { q[i] : i \in 1..Len(q) }
(* what is found is visible and complete, sorted, and hidden things are not found *)
FindRight == \A n \in { FN[i] : i \in 1..NF } :
  LET q == Find(s, n) IN
  /\ Len(q) = Cardinality(Of(s, n))
  /\ \A i \in 1..Len(q) : q[i] \notin s.mk /\ <<q[i][1], q[i][2], "">> \notin s.mk
  /\ (Latest(s, n) = <<>>) = (n \notin Names(s))
  /\ \A e \in Of(s, n) : e.p.ver # <<>> => Get(s, n, e.p.ver[1]) # <<>> /\ Get(s, n, e.p.ver[1])[1][1] <= e.r
  /\ \A i, j \in 1..Len(q) : (i < j /\ q[i][3] = "") => q[j][3] = ""
(* hiding and showing again changes nothing; hiding takes away, never adds *)
HideUndone == \A e \in s.ent : Key(e) \notin s.mk => /\ Unhide(Hide(s, Key(e)), Key(e)) = s
                                                     /\ Visible(Hide(s, Key(e))) \subseteq Visible(s)
(* a repository further back can add packages, it cannot take any away from those before *)
LaterAdds == LET t == [s EXCEPT !.ent = { e \in @ : e.r = 1 }] IN \A n \in { FN[i] : i \in 1..NF } : SetOf(Find(t, n)) \subseteq SetOf(Find(s, n))
(* levels are the distances in the graph of requirements *)
RECURSIVE Dist(_, _, _)
Dist(t, n, d) == IF n = t THEN 0 ELSE IF d = 0 THEN 99
                 ELSE LET D == { Dist(t, x.n, d - 1) : x \in UNION { e.p.req : e \in Of(s, n) } } IN IF D = {} THEN 99 ELSE 1 + (CHOOSE m \in D : \A y \in D : m <= y)
LevelsRight == Mode = "graph" => \A i \in 1..NF : \A d \in {-1, 0, 1, 2} :
  LET L == Levels(s, FN[i], d, FALSE, FALSE) IN
  /\ d >= 0 => Len(L) <= d
  /\ \A k \in 1..NF : LET n == FN[k] x == Dist(FN[i], n, NF) IN
       \A m \in 1..NF : (m <= Len(L) /\ n \in L[m]) <=> (x = m /\ (d < 0 \/ m <= d))
Emit == Gen /\ Len(h) = Depth => PrintT("GEN " \o ToJson(h))
=============================================================================
