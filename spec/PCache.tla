------------------------------- MODULE PCache -------------------------------
(* The package payload cache, as its users see it.  Per variant: "none",        *)
(* "copy" (an entry that is not complete) or "have", with the contents k.        *)
(* live: the process that copies still runs; stale: nothing happened to the      *)
(* copy for longer than the limit; aged: not used for longer than the limit.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [st |-> "none", k |-> 0, live |-> FALSE, stale |-> FALSE, aged |-> FALSE]
Have(k) == [None EXCEPT !.st = "have", !.k = k]
Copying(k, live) == [None EXCEPT !.st = "copy", !.k = k, !.live = live]
StatusOf(e) == CASE e.st = "none" -> "NotFound" [] e.st = "have" -> "Found" [] OTHER -> IF e.stale THEN "CopyStalled" ELSE "Copying"
Used(e) == IF e.st = "have" THEN [e EXCEPT !.aged = FALSE] ELSE e

(* An operation is a sequence of atomic phases.  A phase gives the next state,   *)
(* the result (so far) and whether the operation still has its entry to finish. *)
(* op: [op, h, k, limit]; entries of the cache: function s from 1..H             *)
Size(s) == Cardinality({ h \in DOMAIN s : s[h].st # "none" })
(* clean takes the entries one after another: op.when gives each a phase       *)
Phases(op) == IF op.op = "add" THEN 2 ELSE IF op.when # <<>> THEN 3 ELSE 1
CleanOne(e, op) == IF e.st = "copy" /\ e.stale /\ ~e.live THEN None ELSE IF op.limit /\ e.st = "have" /\ e.aged THEN None ELSE e
Do(s, op, phase, st) ==
  CASE op.op = "add" /\ phase = 1 ->
         IF s[op.h].st # "none" THEN [s |-> [s EXCEPT ![op.h] = Used(@)], res |-> StatusOf(s[op.h]), pend |-> FALSE]
         ELSE IF Size(s) >= op.max THEN [s |-> s, res |-> "Skipped", pend |-> FALSE]
         ELSE [s |-> [s EXCEPT ![op.h] = Copying(op.k, TRUE)], res |-> "Created", pend |-> TRUE]
    [] op.op = "add" /\ phase = 2 -> [st EXCEPT !.s = IF st.pend THEN [s EXCEPT ![op.h] = Have(op.k)] ELSE s, !.pend = FALSE]
    [] op.op = "get" -> [s |-> [s EXCEPT ![op.h] = Used(@)], res |-> StatusOf(s[op.h]), pend |-> FALSE]
    [] op.op = "remove" -> IF s[op.h].st = "have" THEN [s |-> [s EXCEPT ![op.h] = None], res |-> "Removed", pend |-> FALSE] ELSE [s |-> s, res |-> StatusOf(s[op.h]), pend |-> FALSE]
    [] op.op = "clean" -> [s |-> [ h \in DOMAIN s |-> IF op.when = <<>> THEN CleanOne(s[h], op) ELSE IF op.when[h] = phase THEN CleanOne(s[h], op) ELSE s[h] ], res |-> "done", pend |-> FALSE]
    (* the clock is put forward: what is being copied looks stalled, what is there looks unused *)
    [] op.op = "later" -> [s |-> [ h \in DOMAIN s |-> IF s[h].st = "copy" THEN [s[h] EXCEPT !.stale = TRUE] ELSE IF s[h].st = "have" THEN [s[h] EXCEPT !.aged = TRUE] ELSE s[h] ], res |-> "done", pend |-> FALSE]
Nil == [s |-> <<>>, res |-> "", pend |-> FALSE]
Run(s, op) == LET a == Do(s, op, 1, Nil) IN IF Phases(op) = 1 THEN a ELSE Do(a.s, op, 2, a)

(* every way in which two operations (sequences of them) can mix: set of [s, ra, rb] *)
RECURSIVE Mix(_, _, _, _, _, _, _)
Mix(s, a, i, ra, bs, j, rb) ==   (* bs: the other process's operations, one after another *)
  LET aDone == i > Phases(a)
      k == IF j[1] > Len(bs) THEN 0 ELSE j[1]
      stepA == IF aDone THEN {} ELSE LET d == Do(s, a, i, ra) IN Mix(d.s, a, i + 1, d, bs, j, rb)
      stepB == IF k = 0 THEN {} ELSE
                 LET d == Do(s, bs[k], j[2], IF j[2] = 1 THEN Nil ELSE rb[Len(rb)])
                     nb == IF j[2] = 1 THEN Append(rb, d) ELSE [rb EXCEPT ![Len(rb)] = d]
                     nj == IF j[2] < Phases(bs[k]) THEN <<k, j[2] + 1>> ELSE <<k + 1, 1>>
                 IN Mix(d.s, a, i, ra, bs, nj, nb)
  IN IF aDone /\ k = 0 THEN {[s |-> s, ra |-> ra.res, rb |-> [ x \in 1..Len(rb) |-> rb[x].res ]]} ELSE stepA \cup stepB
Split(s, op) == IF op.op # "clean" THEN {op} ELSE { [op EXCEPT !.when = w] : w \in [DOMAIN s -> 1..3] }
Coarse(s, a, bs) == Mix(s, a, 1, Nil, bs, <<1, 1>>, <<>>)
Mixes(s, a, bs) ==
  LET last == Len(bs)
  IN IF a.op = "clean" THEN UNION { Mix(s, x, 1, Nil, bs, <<1, 1>>, <<>>) : x \in Split(s, a) }
     ELSE IF \E i \in 1..last : bs[i].op = "clean" THEN
       LET c == CHOOSE i \in 1..last : bs[i].op = "clean"
       IN UNION { Mix(s, a, 1, Nil, [bs EXCEPT ![c] = x], <<1, 1>>, <<>>) : x \in Split(s, bs[c]) }
     ELSE Coarse(s, a, bs)

(* what may be left of one operation that a crash or a failing disk cut short *)
CutOne(e, op, h) ==
  CASE op.op = "add" -> IF h # op.h THEN {e} ELSE IF e.st # "none" THEN {e, Used(e)} ELSE {None, Copying(op.k, FALSE), Have(op.k)}
    [] op.op = "get" -> IF h # op.h THEN {e} ELSE {e, Used(e)}
    [] op.op = "remove" -> IF h # op.h \/ e.st # "have" THEN {e} ELSE {e, None}
    [] op.op = "clean" -> {e, CleanOne(e, op)}
Cut(s, op) == { f \in [DOMAIN s -> UNION { CutOne(s[h], op, h) : h \in DOMAIN s }] : \A h \in DOMAIN s : f[h] \in CutOne(s[h], op, h) }
=============================================================================
