----------------------------- MODULE MCVersion -----------------------------
(* The version order as a design: over every token list up to MaxLen built from *)
(* Toks, the order is antisymmetric and, leaving zero-padded pairs aside,       *)
(* transitive; so it is a total order.  Also emits the universe for the         *)
(* conformance check.                                                           *)
EXTENDS Version, TLC, Json
CONSTANTS Toks, MaxLen, Emit
VARIABLES a, d, e

RECURSIVE Join(_)
Join(ts) == IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<46>> \o Join(Tail(ts))
Texts == { Join(x) : x \in UNION { [1..n -> Toks] : n \in 1..MaxLen } } \cup {<<>>, Inf}
V(t) == Parse(t)

Init == a \in Texts /\ d = <<>> /\ e = 0 /\ (Emit => PrintT("GEN " \o ToJson(a)))
Next == e = 0 /\ ~Emit /\ e' = 1 /\ a' = a /\ d' \in Texts
Spec == Init /\ [][Next]_<<a, d, e>>

Pv == V(a)
Anti == e = 1 => Cmp(Pv, V(d)) = 0 - Cmp(V(d), Pv)
Refl == Cmp(Pv, Pv) = 0
NoPad(x, y, z) == ~(ZeroPadded(x, y) \/ ZeroPadded(y, z) \/ ZeroPadded(x, z))
Trans == e = 1 => LET x == Pv y == V(d) IN
           Cmp(x, y) <= 0 =>
             \A t \in Texts : LET z == V(t) IN
               (Cmp(y, z) <= 0 /\ NoPad(x, y, z))
                 => /\ Cmp(x, z) <= 0
                    /\ (Cmp(x, z) = 0 => Cmp(x, y) = 0 /\ Cmp(y, z) = 0)
T0 == <<48>>  T1 == <<49>>  T10 == <<49,48>>  TA == <<97>>  TA1 == <<97,49>>  T1A == <<49,97>>  TB2 == <<98,50>>  T01 == <<48,49>>
QToks == {T0, T1, T10, TA, TA1}
FToks == {T0, T1, T10, TA, TA1, T1A, TB2, T01}
=============================================================================
