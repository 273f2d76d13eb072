------------------------------ MODULE TraceCore ------------------------------
(* Validation of recorded executions of the real code.                        *)
(* TRACES is an ndjson file: one line per execution, [id, cfg, events].       *)
(* A trace is accepted when every one of its events is a step the             *)
(* specification allows for property Prop: MayStep(s, e), s' = DoStep(s, e).  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS MayStep(_, _), DoStep(_, _), Start(_)

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, s

TInit == /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ s = Start(Traces[tid].cfg)
         /\ TLCSet(tid, 1)

TNext == /\ l <= Len(Traces[tid].events)
         /\ LET e == Traces[tid].events[l] IN
              /\ MayStep(s, e)
              /\ s' = DoStep(s, e)
         /\ l' = l + 1
         /\ TLCSet(tid, l + 1)
         /\ UNCHANGED tid

TSpec == TInit /\ [][TNext]_<<tid, l, s>>

(* A trace is a line: the position says everything about the state.           *)
TView == <<tid, l>>

(* Every trace whose last event was not reached is reported with the number   *)
(* of the event the specification refuses.                                    *)
Accepted ==
  \A i \in 1..Len(Traces) :
     \/ TLCGet(i) = Len(Traces[i].events) + 1
     \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
