------------------------------ MODULE TraceValid ------------------------------
(* Recorded calls of validate_model and update_simulation on raw models (P15). *)
EXTENDS Valid, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
vars == <<tid, pos>>
Step(n) == Traces[tid].steps[n]

Init == tid \in DOMAIN Traces /\ pos = 1
Next ==
  /\ pos < Len(Traces[tid].steps)
  /\ LET e == Step(pos + 1) IN
     IF RawValid(e.raw) = (e.out = "ok") THEN TRUE
     ELSE PrintT("FAIL " \o ToJson([prop |-> IOEnv.PROP, trace |-> Traces[tid].id, step |-> pos + 1,
             clause |-> IF RawValid(e.raw) THEN "a valid model is accepted" ELSE "an invalid model is rejected",
             detail |-> <<e.ev, e.out, Defects(e.raw)>>]))
  /\ (pos + 1 = Len(Traces[tid].steps)) => PrintT("DONE " \o Traces[tid].id)
  /\ pos' = pos + 1
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
