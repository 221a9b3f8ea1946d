------------------------------ MODULE TraceCases ------------------------------
(***************************************************************************)
(* Single steps of the real code, each from a state of its own: step k     *)
(* has the state pre in which its call was made.  Used for the states and  *)
(* configurations that exhaustive models of the specification print.       *)
(***************************************************************************)
EXTENDS TraceBase

Init ==
  /\ tid \in DOMAIN Traces
  /\ pos = 1
  /\ st = Cfg(Step(2).pre)

Next ==
  /\ pos < Len(Traces[tid].steps)
  /\ LET e == Step(pos + 1)
         ob == Observed(Cfg(e.cfg), Apply(st, e.ev).st)
     IN IF WellFormed(ob) THEN CheckStep(e, st) ELSE Fail("state is a network", e.ev)
  /\ pos' = pos + 1
  /\ st' = IF pos + 1 = Len(Traces[tid].steps) THEN st ELSE Cfg(Step(pos + 2).pre)
  /\ (pos + 1 = Len(Traces[tid].steps)) => PrintT("DONE " \o Traces[tid].id)
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
