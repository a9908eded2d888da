------------------------------- MODULE Store -------------------------------
(* Copying, moving and removing packages between repositories.                  *)
(*   s.c[r][n][v]   0 absent, k in 1..8 complete with contents k, 9 incomplete   *)
(*   s.mk[r][n][v]  -1, or the age in days of the version's ignore marker        *)
(* An operation o: op, ui ("lib" or "cli"), n, v (0: none given), paths (the     *)
(* repositories searched, in order), dest, force, dry, keep, days.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rs_(s) == 1..Len(s.c)
Ns_(s) == 1..Len(s.c[1])
Vs_(s) == 1..Len(s.c[1][1])
Cells(s) == Rs_(s) \X Ns_(s) \X Vs_(s)
At(a, x) == a[x[1]][x[2]][x[3]]
In(o) == { o.paths[i] : i \in 1..Len(o.paths) }
Offered(s, r, n, v) == s.c[r][n][v] # 0 /\ s.mk[r][n][v] = -1

(* the version meant when none is given: the newest on offer in any path *)
Newest(s, o) == LET V == { v \in Vs_(s) : \E r \in In(o) : Offered(s, r, o.n, v) } IN
                IF V = {} THEN 0 ELSE CHOOSE v \in V : \A w \in V : w <= v
Ver(s, o) == IF o.v = 0 THEN Newest(s, o) ELSE o.v
(* the first path that has it *)
Src(s, o) == LET v == Ver(s, o)
                 I == IF v = 0 THEN {} ELSE { i \in 1..Len(o.paths) : s.c[o.paths[i]][o.n][v] # 0 } IN
             IF I = {} THEN 0 ELSE o.paths[CHOOSE i \in I : \A j \in I : i <= j]
Ready(s, o) == /\ Src(s, o) # 0
               /\ Src(s, o) # o.dest
               /\ (s.c[o.dest][o.n][Ver(s, o)] = 0 \/ o.force = 1)
               /\ (o.ui = "cli" => \E r \in In(o) : Offered(s, r, o.n, Ver(s, o)))
Doomed(s, o) == CASE o.op = "rm" -> { <<r, o.n, v>> : r \in In(o), v \in (IF o.v = 0 THEN Vs_(s) ELSE {o.v}) }
                                    \cap { x \in Cells(s) : At(s.c, x) # 0 /\ (o.ui = "cli" => At(s.mk, x) = -1) }
                  [] o.op = "since" -> { x \in Cells(s) : x[1] \in In(o) /\ At(s.c, x) # 0 /\ At(s.mk, x) >= o.days /\ At(s.mk, x) # -1 }
                  [] OTHER -> {}
Map(s, f(_)) == [ r \in Rs_(s) |-> [ n \in Ns_(s) |-> [ v \in Vs_(s) |-> f(<<r, n, v>>) ] ] ]

Apply(s, o) ==
  CASE o.op = "put" -> [res |-> "", s |-> [s EXCEPT !.c[o.dest][o.n][o.v] = o.k]]
    [] o.op = "mark" -> [res |-> "", s |-> [s EXCEPT !.mk[o.dest][o.n][o.v] = o.days]]
    [] o.op \in {"cp", "mv"} ->
         IF ~Ready(s, o) THEN [res |-> "err", s |-> s]
         ELSE IF o.dry = 1 THEN [res |-> "ok", s |-> s]
         ELSE LET v == Ver(s, o) b == Src(s, o)
                  t == [s EXCEPT !.c[o.dest][o.n][v] = s.c[b][o.n][v]] IN
              [res |-> "ok", s |-> IF o.op = "mv" /\ o.keep = 0 THEN [t EXCEPT !.c[b][o.n][v] = 0] ELSE t]
    [] o.op \in {"rm", "since"} ->
         [res |-> "ok",
          s |-> IF o.dry = 1 THEN s
                ELSE [c |-> Map(s, LAMBDA x : IF x \in Doomed(s, o) THEN 0 ELSE At(s.c, x)),
                      mk |-> Map(s, LAMBDA x : IF x \in Doomed(s, o) /\ o.op = "since" THEN -1 ELSE At(s.mk, x))]]

(* states in which an interrupted operation may leave the store *)
Cut(s, o, t) ==
  CASE o.op \in {"cp", "mv"} ->
         IF ~Ready(s, o) \/ o.dry = 1 THEN t = s
         ELSE LET v == Ver(s, o) b == Src(s, o) k == s.c[b][o.n][v] d == <<o.dest, o.n, v>> a == <<b, o.n, v>> IN
              /\ t.mk = s.mk
              /\ \A x \in Cells(s) : x \notin {d, a} => At(t.c, x) = At(s.c, x)
              /\ At(t.c, d) \in {At(s.c, d), 0, 9, k}
              /\ \/ At(t.c, a) = k
                 \/ o.op = "mv" /\ o.keep = 0 /\ At(t.c, d) = k /\ At(t.c, a) \in {0, 9}
    [] o.op = "rm" ->
         /\ t.mk = s.mk
         /\ \A x \in Cells(s) : IF x \in Doomed(s, o) /\ o.dry = 0 THEN At(t.c, x) \in {At(s.c, x), 0, 9} ELSE At(t.c, x) = At(s.c, x)
    [] o.op = "since" ->
         \A x \in Cells(s) : IF x \in Doomed(s, o) /\ o.dry = 0
            THEN \/ At(t.c, x) \in {At(s.c, x), 0, 9} /\ At(t.mk, x) = At(s.mk, x)
                 \/ At(t.c, x) = 0 /\ At(t.mk, x) = -1
            ELSE At(t.c, x) = At(s.c, x) /\ At(t.mk, x) = At(s.mk, x)
    [] OTHER -> FALSE
(* an incomplete package among those searched: which one is taken is not laid down *)
Murky(s, o) == o.op \in {"cp", "mv", "rm"} /\ \E r \in In(o), v \in Vs_(s) : s.c[r][o.n][v] = 9
MurkyStep(s, o, t) == \A x \in Cells(s) : At(t.c, x) = At(s.c, x) \/ (x[2] = o.n /\ (x[1] \in In(o) \/ (o.op # "rm" /\ x[1] = o.dest)))
=============================================================================
