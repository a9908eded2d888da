------------------------------ MODULE MCPCache ------------------------------
EXTENDS PCache, Json
CONSTANTS NH, Depth, Gen
VARIABLES s, hist
Ops == { [op |-> o, h |-> h, k |-> k, limit |-> l, max |-> 9, when |-> <<>>] : o \in {"add", "get", "remove", "clean", "later"}, h \in 1..NH, k \in {1, 2}, l \in BOOLEAN }
Norm(o) == /\ (o.op # "add" => o.k = 1) /\ (o.op \notin {"clean"} => ~o.limit) /\ (o.op \in {"clean", "later"} => o.h = 1)
NOps == { o \in Ops : Norm(o) }
Init == s = [ h \in 1..NH |-> None ] /\ hist = <<>>
Rec(o, how) == Append(hist, [op |-> o.op, h |-> o.h, k |-> o.k, limit |-> o.limit, how |-> how])
Next == /\ Len(hist) < Depth
        /\ \E o \in NOps : \/ s' = Run(s, o).s /\ hist' = Rec(o, "run")
                           \/ o.op # "later" /\ s' \in Cut(s, o) /\ hist' = Rec(o, "cut")
                           \/ \E q \in NOps : \E m \in (IF Gen THEN Coarse(s, o, <<q>>) ELSE Mixes(s, o, <<q>>)) : s' = m.s /\ hist' = Rec(o, "with") \o <<[op |-> q.op, h |-> q.h, k |-> q.k, limit |-> q.limit, how |-> "mid"]>>
Spec == Init /\ [][Next]_<<s, hist>>
View == s
WF == \A h \in 1..NH : s[h].st = "none" => s[h] = None
(* no operation touches another variant, and contents never change in place *)
Locality == [][ \A h \in 1..NH : (s[h].st = "have" /\ s'[h].st = "have" /\ Len(hist') = Len(hist) + 1) => s'[h].k = s[h].k ]_<<s, hist>>
(* run to the end, one after the other, is among the ways two operations can mix *)
InOrder == \A a, q \in NOps : LET x == Run(s, a) y == Run(x.s, q) IN [s |-> y.s, ra |-> x.res, rb |-> <<y.res>>] \in Mixes(s, a, <<q>>)
(* an uninterrupted run is a possible outcome of an interrupted one *)
CutHasRun == \A a \in NOps : a.op # "later" => Run(s, a).s \in Cut(s, a)
(* a live copy survives everything the other process does *)
LiveKept == \A a, q \in NOps : a.op = "add" /\ s[a.h].st = "none" /\ q.op # "remove" => \A m \in Mixes(s, a, <<[op |-> "later", h |-> 1, k |-> 1, limit |-> FALSE, max |-> 9, when |-> <<>>], q>>) : m.s[a.h].st = "have" \/ (q.op = "clean" /\ m.ra = "Created")
Emit == Gen => (Len(hist) >= Depth => PrintT("GEN " \o ToJson(hist)))
=============================================================================
