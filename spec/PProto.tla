------------------------------- MODULE PProto -------------------------------
(* The steps the cache takes on disk, for two processes that may crash: lock,   *)
(* copying flag, metadata, payload file by file, unflag; metadata away, payload *)
(* to the trash.  Both variants share one directory of increments.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, Files, MaxInc, Locked, MetaFirst, Ops
VARIABLES flags, meta, pay, trash, lock, pc, job, tmp, removed
vars == <<flags, meta, pay, trash, lock, pc, job, tmp, removed>>
Procs == {"p", "q"}
Incs == 1..MaxInc
(* meta: increment -> 0 or handle; pay: increment -> [h -> files copied from h] or none *)
NoPay == [h \in H |-> 0]
Init == /\ flags = [i \in Incs |-> "off"] /\ meta = [i \in Incs |-> 0] /\ pay = [i \in Incs |-> <<>>] /\ trash = 0 /\ lock = "free"
        /\ pc = [p \in Procs |-> "idle"] /\ job = [p \in Procs |-> [op |-> "none", h |-> 0, i |-> 0, n |-> 0]] /\ tmp = Ops /\ removed = {}
Found(h) == { i \in Incs : meta[i] = h /\ flags[i] = "off" /\ pay[i] # <<>> }
Entry(h) == { i \in Incs : meta[i] = h /\ (flags[i] # "off" \/ pay[i] # <<>>) }
Taken == { i \in Incs : flags[i] # "off" \/ meta[i] # 0 \/ pay[i] # <<>> }
Free == IF Taken = {} THEN 1 ELSE (CHOOSE i \in Taken : \A j \in Taken : j <= i) + 1
Begin(p) == /\ pc[p] = "idle" /\ tmp > 0 /\ tmp' = tmp - 1
            /\ \E h \in H, o \in {"add", "remove", "clean"} : job' = [job EXCEPT ![p] = [op |-> o, h |-> h, i |-> 0, n |-> 0]] /\ pc' = [pc EXCEPT ![p] = "lock"]
            /\ UNCHANGED <<flags, meta, pay, trash, lock, removed>>
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Lock(p) == /\ pc[p] = "lock" /\ (Locked => lock = "free") /\ lock' = (IF Locked THEN p ELSE lock)
           /\ Go(p, job[p].op) /\ UNCHANGED <<flags, meta, pay, trash, job, tmp, removed>>
Un(p) == lock' = (IF lock = p THEN "free" ELSE lock)
AddFlag(p) ==
  /\ pc[p] = "add"
  /\ IF Entry(job[p].h) # {} \/ Free > MaxInc THEN Go(p, "idle") /\ Un(p) /\ UNCHANGED <<flags, job>>
     ELSE flags' = [flags EXCEPT ![Free] = p] /\ job' = [job EXCEPT ![p].i = Free] /\ Go(p, "meta") /\ UNCHANGED lock
  /\ UNCHANGED <<meta, pay, trash, tmp, removed>>
AddMeta(p) == /\ pc[p] = "meta" /\ meta' = [meta EXCEPT ![job[p].i] = job[p].h] /\ Un(p) /\ Go(p, "copy") /\ removed' = removed \ {job[p].h} /\ UNCHANGED <<flags, pay, trash, job, tmp>>
Copy(p) ==
  /\ pc[p] = "copy"
  /\ pay' = [pay EXCEPT ![job[p].i] = [ (IF @ = <<>> THEN NoPay ELSE @) EXCEPT ![job[p].h] = job[p].n ]]
  /\ job' = [job EXCEPT ![p].n = @ + 1]
  /\ Go(p, IF job[p].n = Files THEN "unflag" ELSE "copy")
  /\ UNCHANGED <<flags, meta, trash, lock, tmp, removed>>
Unflag(p) == /\ pc[p] = "unflag" /\ flags' = [flags EXCEPT ![job[p].i] = "off"] /\ Go(p, "idle") /\ UNCHANGED <<meta, pay, trash, lock, job, tmp, removed>>
Rem(p) ==
  /\ pc[p] = "remove"
  /\ IF Found(job[p].h) = {} THEN Go(p, "idle") /\ Un(p) /\ UNCHANGED <<meta, pay, job, removed>>
     ELSE LET i == CHOOSE i \in Found(job[p].h) : TRUE IN
            /\ job' = [job EXCEPT ![p].i = i]
            /\ IF MetaFirst THEN meta' = [meta EXCEPT ![i] = 0] /\ UNCHANGED pay ELSE pay' = [pay EXCEPT ![i] = <<>>] /\ UNCHANGED meta
            /\ Go(p, "rem2") /\ UNCHANGED <<lock, removed>>
  /\ UNCHANGED <<flags, trash, tmp>>
Rem2(p) == /\ pc[p] = "rem2" /\ LET i == job[p].i IN IF MetaFirst THEN pay' = [pay EXCEPT ![i] = <<>>] /\ UNCHANGED meta ELSE meta' = [meta EXCEPT ![i] = 0] /\ UNCHANGED pay
           /\ trash' = 1 /\ Un(p) /\ Go(p, "idle") /\ removed' = removed \cup {job[p].h} /\ UNCHANGED <<flags, job, tmp>>
(* stalled copies of processes that are gone: metadata, payload, flag *)
Clean(p) ==
  /\ pc[p] = "clean"
  /\ IF \E i \in Incs : flags[i] = "dead" /\ meta[i] # 0
     THEN LET i == CHOOSE i \in Incs : flags[i] = "dead" /\ meta[i] # 0 IN meta' = [meta EXCEPT ![i] = 0] /\ job' = [job EXCEPT ![p].i = i] /\ Go(p, "clean2") /\ UNCHANGED lock
     ELSE Go(p, "idle") /\ Un(p) /\ UNCHANGED <<meta, job>>
  /\ UNCHANGED <<flags, pay, trash, tmp, removed>>
Clean2(p) == /\ pc[p] = "clean2" /\ pay' = [pay EXCEPT ![job[p].i] = <<>>] /\ Go(p, "clean3") /\ UNCHANGED <<flags, meta, trash, lock, job, tmp, removed>>
Clean3(p) == /\ pc[p] = "clean3" /\ flags' = [flags EXCEPT ![job[p].i] = "off"] /\ Go(p, "clean") /\ UNCHANGED <<meta, pay, trash, lock, job, tmp, removed>>
(* a crash frees the locks; flags stay and belong to nobody *)
Crash(p) == /\ pc[p] # "idle" /\ Go(p, "idle") /\ Un(p) /\ flags' = [ i \in Incs |-> IF flags[i] = p THEN "dead" ELSE flags[i] ] /\ UNCHANGED <<meta, pay, trash, job, tmp, removed>>
Next == \E p \in Procs : Begin(p) \/ Lock(p) \/ AddFlag(p) \/ AddMeta(p) \/ Copy(p) \/ Unflag(p) \/ Rem(p) \/ Rem2(p) \/ Clean(p) \/ Clean2(p) \/ Clean3(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars
(* what is found is complete, of the right variant, and there once *)
FoundWhole == \A h \in H : \A i \in Found(h) : pay[i] = [NoPay EXCEPT ![h] = Files]
Once == \A h \in H : Cardinality(Entry(h)) <= 1
RemovedStays == \A h \in removed : Found(h) = {}
=============================================================================
