-------------------------------- MODULE Trace --------------------------------
(* One recorded history of one model, see TraceBase.                       *)
EXTENDS TraceBase

Init ==
  /\ tid \in DOMAIN Traces
  /\ pos = 1
  /\ st = Cfg(Step(1).cfg)
  /\ On("P20", Has(Step(1), "look") =>
        LET bad == BadLookups(st, Step(1).look) IN
        IF bad = {} THEN TRUE ELSE FailAt(1, "lookup", bad))

Next ==
  /\ pos < Len(Traces[tid].steps)
  /\ LET e == Step(pos + 1)
         want == Apply(st, e.ev)
         ob == Observed(Cfg(e.cfg), want.st)
     IN IF WellFormed(ob)
        THEN /\ CheckStep(e, st)
             /\ st' = ob
             /\ pos' = pos + 1
             /\ (pos + 1 = Len(Traces[tid].steps)) => PrintT("DONE " \o Traces[tid].id)
        ELSE /\ Fail("state is a network", e.ev)
             /\ st' = st
             /\ pos' = Len(Traces[tid].steps)
             /\ PrintT("DONE " \o Traces[tid].id)
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
