------------------------------ MODULE MCConfig ------------------------------
EXTENDS Config, Json
CONSTANTS Gen, Vals
VARIABLES t, u
K == {"a", "b"}
Leaves == { {<<<<>>, v>>} : v \in Vals \cup {"{}"} }
Under(k, x) == { <<<<k>> \o y[1], y[2]>> : y \in x }
Tables(S) == LET O == S \cup {{}} IN ({ Under("a", x) \cup Under("b", y) : x \in O, y \in O } \ {{}}) \cup {{<<<<>>, "{}">>}}
T1 == Leaves \cup Tables(Leaves)
Trees == Tables(T1)
Init == t \in Trees /\ u \in (IF Gen THEN {{}} ELSE Trees)
Next == UNCHANGED <<t, u>>
Spec == Init /\ [][Next]_<<t, u>>
N(x) == x \ {<<<<>>, "{}">>}
Good == LET a == N(t) b == N(u) m == Merge(a, b) IN
  /\ WellFormed(a) /\ WellFormed(m)
  /\ Merge(a, a) = a
  /\ Merge({}, a) = a
  /\ Merge(m, b) = m
  (* the later layer wins *)
  /\ \A y \in b : y[2] # "{}" => y \in m
  /\ \A y \in b : y[2] = "{}" => HasTable(m, y[1])
  (* nothing comes from anywhere else *)
  /\ m \subseteq a \cup b
  (* what the later layer does not mention stays *)
  /\ \A x \in a : (\A y \in b : ~Prefix(y[1], x[1]) /\ ~Prefix(x[1], y[1])) => x \in m
ReplaceGood == LET a == N(t) IN \A p \in {<<"a">>, <<"a", "b">>, <<"b", "a", "a">>} :
  LET r == Replace(a, p, {<<<<>>, "1">>}) IN WellFormed(r) /\ <<p, "1">> \in r /\ At(r, p) = {<<p, "1">>}
Emit == Gen => PrintT("GEN " \o ToJson(N(t)))
=============================================================================
