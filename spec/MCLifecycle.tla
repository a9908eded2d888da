---------------------------- MODULE MCLifecycle ----------------------------
(* The repository machine at the granularity of single file-system effects;     *)
(* a removal can be cut off between any two of them.  h is the history of       *)
(* operations, printed as a behaviour to replay against the real code.          *)
EXTENDS Lifecycle, Json
CONSTANTS NF, NV, Depth, Gen, WithH
VARIABLES s, pc, h
Ages == {0, 3, 10}
O(op, i, j) == [op |-> op, i |-> i, j |-> j, ro |-> 0, allow |-> 0, force |-> 0, days |-> 0, dry |-> 0, at |-> 0, mode |-> ""]
Atomic == { O("add", i, j) : i \in 1..NF, j \in 1..NV }
     \cup { [O("age", i, j) EXCEPT !.days = d] : i \in 1..NF, j \in 1..NV, d \in Ages }
     \cup { [O("ignore", i, j) EXCEPT !.allow = a, !.ro = r] : i \in 1..NF, j \in 1..NV, a \in {0, 1}, r \in {0, 1} }
     \cup { [O("unignore", i, j) EXCEPT !.ro = r] : i \in 1..NF, j \in 1..NV, r \in {0, 1} }
     \cup { [O("removefam", i, 1) EXCEPT !.force = a, !.ro = r] : i \in 1..NF, a \in {0, 1}, r \in {0, 1} }
     \cup { [O("remove", i, j) EXCEPT !.ro = 1] : i \in 1..NF, j \in 1..NV }
     \cup { [O("since", 1, 1) EXCEPT !.days = d, !.dry = y, !.ro = r] : d \in {-1, 0, 2, 5, 30}, y \in {0, 1}, r \in {0, 1} }
Zero == [ i \in 1..NF |-> [ j \in 1..NV |-> 0 ] ]
Init == /\ s = [pay |-> Zero, mark |-> [ i \in 1..NF |-> [ j \in 1..NV |-> -1 ] ], dir |-> [ i \in 1..NF |-> 0 ]]
        /\ pc = <<>> /\ h = <<>>
Log(o) == h' = IF WithH THEN Append(h, o) ELSE <<>>
Room == WithH => Len(h) < Depth
(* assumption: nobody un-ignores a package whose removal was cut off half way *)
Sane(o) == o.op = "unignore" => s.pay[o.i][o.j] # 2
Do(o) == pc = <<>> /\ Room /\ Sane(o) /\ s' = Apply(s, o).s /\ pc' = <<>> /\ Log(o)
Begin(i, j) == /\ pc = <<>> /\ Room
               /\ pc' = (IF s.pay[i][j] = 0 THEN <<>> ELSE <<i, j, 1>>)
               /\ Log(O("remove", i, j)) /\ UNCHANGED s
Micro == /\ pc # <<>>
         /\ LET i == pc[1] j == pc[2] IN
            CASE pc[3] = 1 -> s' = [s EXCEPT !.mark[i][j] = IF @ = -1 THEN 0 ELSE @] /\ pc' = <<i, j, 2>>
              [] pc[3] = 2 -> s' = [s EXCEPT !.pay[i][j] = 2] /\ pc' = <<i, j, 3>>
              [] pc[3] = 3 -> s' = [s EXCEPT !.pay[i][j] = 0] /\ pc' = <<i, j, 4>>
              [] pc[3] = 4 -> s' = [s EXCEPT !.mark[i][j] = -1] /\ pc' = <<>>
         /\ UNCHANGED h
CrashNow == /\ pc # <<>> /\ pc' = <<>> /\ UNCHANGED s
            /\ h' = IF WithH THEN [h EXCEPT ![Len(h)].at = pc[3], ![Len(h)].mode = "cut"] ELSE h
Next == (\E o \in Atomic : Do(o)) \/ (\E i \in 1..NF, j \in 1..NV : Begin(i, j)) \/ Micro \/ CrashNow
Spec == Init /\ [][Next]_<<s, pc, h>>

TypeOK == s.pay \in [1..NF -> [1..NV -> 0..2]] /\ s.dir \in [1..NF -> 0..1]
(* what a user can see is complete, whatever was cut off *)
VisibleComplete == \A i \in Fs(s) : \A j \in Visible(s, i) : s.pay[i][j] = 1
MarkedNeedsDir == \A i \in Fs(s) : s.dir[i] = 0 => \A j \in Vs(s) : s.pay[i][j] = 0 /\ s.mark[i][j] = -1
(* a payload disappears only through an operation on it *)
NoSilentLoss == [][\A c \in Cells(s) : s.pay[c[1]][c[2]] = 1 /\ s'.pay[c[1]][c[2]] # 1 =>
                    \/ s.mark[c[1]][c[2]] # -1
                    \/ \E o \in Atomic : o.op = "removefam" /\ o.force = 1 /\ o.ro = 0 /\ o.i = c[1] /\ s' = Apply(s, o).s]_<<s, pc, h>>
Emit == Gen /\ pc = <<>> /\ Len(h) = Depth => PrintT("GEN " \o ToJson(h))
=============================================================================
