-------------------------------- MODULE Req --------------------------------
(* What a requirement string selects.  A constraint is a sequence of atoms,     *)
(* all of which must hold; atom [k, v (text), w (wildcard parts)].              *)
EXTENDS Range

(* compare x with bound v looking only at as many tokens as v has *)
CmpAt(x, v) == IF x.kind = "norm" /\ v.kind = "norm" /\ Len(x.toks) > Len(v.toks)
               THEN ToksCmpAt(SubSeq(x.toks, 1, Len(v.toks)), v.toks, 1)
               ELSE Cmp(x, v)

HasPrefix(x, v) == /\ Len(x.toks) >= Len(v.toks)
                   /\ \A i \in 1..Len(v.toks) : TokCmp(x.toks[i], v.toks[i]) = 0

(* dotted parts of a text *)
RECURSIVE SplitDots(_, _, _)
SplitDots(s, cur, acc) == IF s = <<>> THEN Append(acc, cur)
                          ELSE IF Head(s) = 46 THEN SplitDots(Tail(s), <<>>, Append(acc, cur))
                          ELSE SplitDots(Tail(s), Append(cur, Head(s)), acc)
Dots(s) == SplitDots(s, <<>>, <<>>)

CompatAt(xt, vt) == LET a == Dots(xt) c == Dots(vt) n == Len(c) IN
                    /\ Len(a) >= n
                    /\ \A i \in 1..(n - 1) : a[i] = c[i]
                    /\ IF AllDigits(a[n]) /\ AllDigits(c[n]) THEN NumCmp(a[n], c[n]) >= 0 ELSE LexCmp(a[n], c[n]) >= 0

Star == <<42>>
WildAt(xt, wt) == LET a == Dots(xt) c == Dots(wt)
                      stars == { i \in 1..Len(c) : c[i] = Star }
                      n == IF stars = {} THEN Len(c) ELSE (CHOOSE i \in stars : \A j \in stars : i <= j) - 1
                  IN /\ Len(a) >= n
                     /\ \A i \in 1..n : a[i] = c[i]
                     /\ stars = {} => Len(a) = Len(c)

(* atom a, with parsed bound pv, against the version with text xt, parsed px *)
AtomHas(a, pv, xt, px) ==
  CASE a.k = "prefix" -> HasPrefix(px, pv)
    [] a.k = "ge" -> CmpAt(px, pv) >= 0
    [] a.k = "gt" -> CmpAt(px, pv) > 0
    [] a.k = "le" -> CmpAt(px, pv) <= 0
    [] a.k = "lt" -> CmpAt(px, pv) < 0
    [] a.k = "eq" -> CmpAt(px, pv) = 0
    [] a.k = "ne" -> Cmp(px, pv) # 0
    [] a.k = "compat" -> CompatAt(xt, a.v)
    [] a.k = "wild" -> WildAt(xt, a.v)
=============================================================================
