-------------------------------- MODULE Walk --------------------------------
(* Generic trace walker.  The recorded file (environment variable TRACE) has   *)
(* one behaviour of the real implementation per line:                          *)
(*   [id |-> .., init |-> .., steps |-> << [op |-> .., ...], ... >>]           *)
(* The property module supplies, through its .cfg,                             *)
(*   MInit(init)   the abstract state the behaviour starts in                  *)
(*   MStep(s, st)  [why |-> reasons why the observed step st is not a step the *)
(*                  specification allows in abstract state s ({} if allowed),  *)
(*                  next |-> the abstract state after it]                      *)
(* Every state of the walk is one consumed step, so distinct states =          *)
(* steps + behaviours + 1; the driver verifies that, so nothing is skipped.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MInit(_), MStep(_, _)
VARIABLES b, l, m

Trace == ndJsonDeserialize(IOEnv.TRACE)

WInit == b = 0 /\ l = 0 /\ m = <<>>

Start == /\ b = 0
         /\ \E k \in DOMAIN Trace :
              /\ b' = k
              /\ l' = 0
              /\ m' = MInit(Trace[k].init)

Consume == /\ b > 0
           /\ l < Len(Trace[b].steps)
           /\ LET r == TLCEval(MStep(m, Trace[b].steps[l + 1])) IN
                /\ IF r.why = {} THEN TRUE
                   ELSE PrintT("MISMATCH " \o ToJson([b |-> b, l |-> l + 1, why |-> r.why]))
                /\ m' = r.next
           /\ b' = b
           /\ l' = l + 1

WNext == Start \/ Consume
WSpec == WInit /\ [][WNext]_<<b, l, m>>
View == <<b, l>>
=============================================================================
