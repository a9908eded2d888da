----------------------------- MODULE Lifecycle -----------------------------
(* A filesystem package repository: families i, versions j.                     *)
(*   pay[i][j]  0 no payload, 1 complete, 2 partly there                        *)
(*   mark[i][j] -1 not ignored, otherwise the age of the ignore marker in days  *)
(*   dir[i]     does the family directory exist                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Fs(s) == 1..Len(s.pay)
Vs(s) == 1..Len(s.pay[1])
Cells(s) == Fs(s) \X Vs(s)
Set(a, i, j, x) == [a EXCEPT ![i][j] = x]
Visible(s, i) == { j \in Vs(s) : s.pay[i][j] # 0 /\ s.mark[i][j] = -1 }
Same(s, r) == [res |-> r, s |-> s]

(* markers old enough, with something to remove *)
Expired(s, d) == { c \in Cells(s) : s.mark[c[1]][c[2]] >= d /\ s.mark[c[1]][c[2]] # -1 /\ s.pay[c[1]][c[2]] # 0 }

(* the complete effect of an operation, and what it reports *)
Apply(s, o) ==
  CASE o.op = "add" -> [res |-> "", s |-> [s EXCEPT !.pay[o.i][o.j] = 1, !.dir[o.i] = 1]]
    [] o.op = "age" -> [res |-> "", s |-> IF s.mark[o.i][o.j] = -1 THEN s ELSE [s EXCEPT !.mark[o.i][o.j] = o.days]]
    [] o.ro = 1 -> Same(s, "err")
    [] o.op = "ignore" ->
         IF s.pay[o.i][o.j] = 0 /\ o.allow = 0 THEN Same(s, "-1")
         ELSE IF s.mark[o.i][o.j] # -1 THEN Same(s, "0")
         ELSE [res |-> "1", s |-> [s EXCEPT !.mark[o.i][o.j] = 0, !.dir[o.i] = 1]]
    [] o.op = "unignore" ->
         [res |-> IF s.pay[o.i][o.j] = 0 THEN "-1" ELSE IF s.mark[o.i][o.j] = -1 THEN "0" ELSE "1",
          s |-> [s EXCEPT !.mark[o.i][o.j] = -1]]
    [] o.op = "remove" ->
         IF s.pay[o.i][o.j] = 0 THEN Same(s, "false")
         ELSE [res |-> "true", s |-> [s EXCEPT !.pay[o.i][o.j] = 0, !.mark[o.i][o.j] = -1]]
    [] o.op = "removefam" ->
         IF s.dir[o.i] = 0 THEN Same(s, "false")
         ELSE IF o.force = 0 /\ \E j \in Vs(s) : s.pay[o.i][j] # 0 THEN Same(s, "err")
         ELSE [res |-> "true", s |-> [s EXCEPT !.pay[o.i] = [j \in Vs(s) |-> 0], !.mark[o.i] = [j \in Vs(s) |-> -1], !.dir[o.i] = 0]]
    [] o.op = "since" ->
         IF o.days < 0 THEN Same(s, "err")
         ELSE LET E == Expired(s, o.days) IN
              [res |-> ToString(Cardinality(E)),
               s |-> IF o.dry = 1 THEN s
                     ELSE [s EXCEPT !.pay = [i \in Fs(s) |-> [j \in Vs(s) |-> IF <<i, j>> \in E THEN 0 ELSE s.pay[i][j]]],
                                    !.mark = [i \in Fs(s) |-> [j \in Vs(s) |-> IF <<i, j>> \in E THEN -1 ELSE s.mark[i][j]]]]]

(* may cell (p, m) become (q, n) when a removal of it is interrupted?           *)
(* It stays, or it is marked before anything is lost and unmarked only at the   *)
(* end: a payload that is not complete is never visible.                        *)
CutRemove(p, m, q, n) == \/ q = p /\ (n = m \/ (m = -1 /\ n = 0))
                         \/ q \in {0, 2} /\ n = (IF m = -1 THEN 0 ELSE m)
                         \/ q = 0 /\ n = -1
Touched(s, o) == CASE o.op \in {"ignore", "unignore", "remove"} -> {<<o.i, o.j>>}
                   [] o.op = "removefam" -> {o.i} \X Vs(s)
                   [] o.op = "since" -> IF o.dry = 1 THEN {} ELSE Expired(s, o.days)
                   [] OTHER -> {}
Cut(s, o, t) ==
  /\ \A c \in Cells(s) :
       LET p == s.pay[c[1]][c[2]] m == s.mark[c[1]][c[2]] q == t.pay[c[1]][c[2]] n == t.mark[c[1]][c[2]] IN
       IF c \notin Touched(s, o) \/ o.ro = 1 THEN p = q /\ m = n
       ELSE CASE o.op = "ignore" -> q = p /\ n \in {m, Apply(s, o).s.mark[c[1]][c[2]]}
              [] o.op = "unignore" -> q = p /\ n \in {m, -1}
              [] o.op = "remove" -> IF p = 0 THEN q = p /\ n = m ELSE CutRemove(p, m, q, n)
              [] o.op = "since" -> CutRemove(p, m, q, n)
              [] o.op = "removefam" -> (o.force = 0 /\ \E j \in Vs(s) : s.pay[c[1]][j] # 0) => (p = q /\ m = n)
  /\ \A i \in Fs(s) : \/ t.dir[i] = s.dir[i]
                      \/ o.ro # 1 /\ o.op = "ignore" /\ i = o.i /\ t.dir[i] = 1
                      \/ o.ro # 1 /\ o.op = "removefam" /\ i = o.i
=============================================================================
