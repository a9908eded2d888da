------------------------------ MODULE MCStore ------------------------------
(* The store at the granularity of file-system effects: a forced copy clears    *)
(* the destination, copies piece by piece, and only then a move clears the      *)
(* source; any of it can be cut off.  live: what users put and nobody removed.  *)
EXTENDS Store, Json
CONSTANTS NR, NN, NV, NK, Depth, WithH, Gen
VARIABLES s, pc, live, h
vars == <<s, pc, live, h>>
Perms == { p \in UNION { [1..k -> 1..NR] : k \in 1..2 } : \A i, j \in DOMAIN p : i # j => p[i] # p[j] }
O(op, ui, n, v) == [op |-> op, ui |-> ui, n |-> n, v |-> v, paths |-> <<1>>, dest |-> 1, force |-> 0, dry |-> 0, keep |-> 0, days |-> 0, k |-> 0, at |-> 0, mode |-> ""]
Puts == { [O("put", "lib", n, v) EXCEPT !.dest = r, !.k = k] : n \in 1..NN, v \in 1..NV, r \in 1..NR, k \in 1..NK }
Marks == { [O("mark", "lib", NN, v) EXCEPT !.dest = r, !.days = d] : v \in 1..NV, r \in 1..NR, d \in {-1, 1, 9} }
Copies == { [O(op, ui, n, v) EXCEPT !.paths = p, !.dest = r, !.force = f, !.keep = k] :
              op \in {"cp", "mv"}, ui \in {"lib", "cli"}, n \in 1..NN, v \in 0..NV, p \in Perms, r \in 1..NR, f \in {0, 1}, k \in {0, 1} }
Dries == { [O(op, "cli", n, v) EXCEPT !.dry = 1, !.paths = p, !.dest = r] : op \in {"cp", "mv", "rm"}, n \in 1..NN, v \in 0..NV, p \in Perms, r \in 1..NR }
Rms == { [O("rm", ui, n, v) EXCEPT !.paths = p] : ui \in {"lib", "cli"}, n \in 1..NN, v \in 0..NV, p \in Perms }
Sinces == { [O("since", "cli", 1, 0) EXCEPT !.paths = p, !.days = d, !.dry = y] : p \in Perms, d \in {0, 5, 30}, y \in {0, 1} }
(* what the harness asks for: a version is required by the library, keep is a move's; ignored packages are left to rm and since *)
Sane(o) == /\ (o.ui = "lib" /\ o.op \in {"cp", "mv"} => o.v # 0)
           /\ (o.keep = 1 => o.op = "mv")
           /\ ~Murky(s, o)
           /\ (o.op \in {"cp", "mv", "rm", "put"} => \A r \in 1..NR, v \in 1..NV : s.mk[r][o.n][v] = -1 \/ (o.op = "put" /\ ~(r = o.dest /\ v = o.v)))
           /\ (o.op = "mark" => s.c[o.dest][o.n][o.v] # 0)
None == [ r \in 1..NR |-> [ n \in 1..NN |-> [ v \in 1..NV |-> 0 ] ] ]
Init == /\ s = [c |-> None, mk |-> [ r \in 1..NR |-> [ n \in 1..NN |-> [ v \in 1..NV |-> -1 ] ] ]]
        /\ pc = <<>> /\ live = {} /\ h = <<>>
Room == WithH => Len(h) < Depth
Stocked == WithH => Len(h) >= 4
Log(o) == h' = IF WithH THEN Append(h, o) ELSE <<>>
Tag(x, k) == <<x[2], x[3], k>>
Drop(X) == { Tag(x, At(s.c, x)) : x \in X }
Put == \E o \in Puts \cup Marks :
         /\ pc = <<>> /\ Room /\ Sane(o) /\ Log(o) /\ s' = Apply(s, o).s /\ pc' = pc
         /\ live' = IF o.op = "put" THEN (live \ Drop({<<o.dest, o.n, o.v>>})) \cup {<<o.n, o.v, o.k>>} ELSE live
(* operations that end at once *)
Simple == \E o \in Copies \cup Dries \cup Sinces \cup Rms :
         /\ pc = <<>> /\ Room /\ Stocked /\ Sane(o) /\ (o.op \in {"cp", "mv"} => ~Ready(s, o) \/ o.dry = 1)
         /\ Log(o) /\ s' = Apply(s, o).s /\ pc' = pc
         /\ live' = IF o.dry = 1 THEN live ELSE live \ Drop(Doomed(s, o))
Begin == \E o \in Copies :
         /\ pc = <<>> /\ Room /\ Stocked /\ Sane(o) /\ Ready(s, o) /\ Log(o)
         /\ pc' = <<o, s, 1>> /\ live' = live \ Drop({<<o.dest, o.n, Ver(s, o)>>}) /\ UNCHANGED s
Micro == /\ pc # <<>>
         /\ LET o == pc[1] s0 == pc[2] v == Ver(s0, o) b == Src(s0, o) IN
            CASE pc[3] = 1 -> s' = [s EXCEPT !.c[o.dest][o.n][v] = 0] /\ pc' = <<o, s0, 2>>
              [] pc[3] = 2 -> s' = [s EXCEPT !.c[o.dest][o.n][v] = 9] /\ pc' = <<o, s0, 3>>
              [] pc[3] = 3 -> s' = [s EXCEPT !.c[o.dest][o.n][v] = s0.c[b][o.n][v]]
                              /\ pc' = IF o.op = "mv" /\ o.keep = 0 THEN <<o, s0, 4>> ELSE <<>>
              [] pc[3] = 4 -> s' = [s EXCEPT !.c[b][o.n][v] = 9] /\ pc' = <<o, s0, 5>>
              [] pc[3] = 5 -> s' = [s EXCEPT !.c[b][o.n][v] = 0] /\ pc' = <<>>
         /\ UNCHANGED <<h, live>>
CrashNow == /\ pc # <<>> /\ pc' = <<>> /\ UNCHANGED <<s, live>>
            /\ h' = IF WithH THEN [h EXCEPT ![Len(h)].mode = "cut"] ELSE h
Next == Put \/ Simple \/ Begin \/ Micro \/ CrashNow
Spec == Init /\ [][Next]_vars
(* nothing is lost that nobody removed or overwrote, wherever an operation is cut off *)
NothingLost == \A t \in live : \E r \in 1..NR : s.c[r][t[1]][t[2]] = t[3]
(* every state an operation passes through is one the conformance check accepts after a crash *)
CutAccepts == pc # <<>> => Cut(pc[2], pc[1], s)
EndsRight == [][pc # <<>> /\ pc'= <<>> /\ pc[3] \in {3, 5} /\ s' # s => s' = Apply(pc[2], pc[1]).s]_vars
Emit == Gen /\ pc = <<>> /\ Len(h) = Depth => PrintT("GEN " \o ToJson(h))
=============================================================================
