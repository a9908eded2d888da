------------------------------- MODULE Range -------------------------------
(* Version ranges denote sets of versions: a range is a union of conjunctions   *)
(* of bounds; the algebra is the algebra of sets.                               *)
EXTENDS Version

RECURSIVE Inc(_)
Inc(ds) == IF ds = <<>> THEN <<49>>
           ELSE LET n == Len(ds) IN
                IF ds[n] < 57 THEN SubSeq(ds, 1, n - 1) \o <<ds[n] + 1>>
                ELSE Inc(SubSeq(ds, 1, n - 1)) \o <<48>>

NumTok(ds) == << [n |-> TRUE, s |-> ds] >>
IsNumTok(t) == Len(t) = 1 /\ t[1].n

(* the exclusive upper bound of "compatible with v" (for dotted versions):      *)
(* X.Y -> (X+1).0, X.Y.Z... -> X.(Y+1).0; none if the component is not a number *)
CompatUpper(v) ==
  LET t == v.toks IN
  IF Len(t) = 2 THEN IF IsNumTok(t[1])
                     THEN <<[ok |-> TRUE, kind |-> "norm", toks |-> << NumTok(Inc(StripZeros(t[1][1].s))), NumTok(<<48>>) >>]>> ELSE <<>>
  ELSE IF Len(t) > 2 THEN IF IsNumTok(t[2])
                     THEN <<[ok |-> TRUE, kind |-> "norm", toks |-> << t[1], NumTok(Inc(StripZeros(t[2][1].s))), NumTok(<<48>>) >>]>> ELSE <<>>
  ELSE <<>>

(* bound [k, v] with v parsed *)
BoundHas(bd, x) ==
  CASE bd.k = "any" -> TRUE
    [] bd.k = "none" -> FALSE
    [] bd.k = "ge" -> Cmp(x, bd.v) >= 0
    [] bd.k = "gt" -> Cmp(x, bd.v) > 0
    [] bd.k = "le" -> Cmp(x, bd.v) <= 0
    [] bd.k = "lt" -> Cmp(x, bd.v) < 0
    [] bd.k = "eq" -> Cmp(x, bd.v) = 0
    [] bd.k = "ne" -> Cmp(x, bd.v) # 0
    [] bd.k = "compat" -> /\ Cmp(x, bd.v) >= 0
                          /\ LET u == CompatUpper(bd.v) IN u # <<>> => Cmp(x, u[1]) < 0

ParseAst(ast) == [ i \in 1..Len(ast) |-> [ j \in 1..Len(ast[i]) |-> [k |-> ast[i][j].k, v |-> Parse(ast[i][j].v)] ] ]
Has(pa, x) == \E i \in 1..Len(pa) : \A j \in 1..Len(pa[i]) : BoundHas(pa[i][j], x)
ConjHas(cj, x) == \A j \in 1..Len(cj) : BoundHas(cj[j], x)
=============================================================================
