------------------------------- MODULE TraceIso -------------------------------
(***************************************************************************)
(* Several models in one process (P17).  seen[m] is everything that can be *)
(* seen of model m.  A call on model m may change seen[m] only; making a   *)
(* model changes no other, and the new one is what it was made from.       *)
(* Simulations of models that have the same objects with other attributes  *)
(* give what they give in a process without any other model.               *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLE seen
ivars == <<tid, pos, st, seen>>
Others(e) == DOMAIN seen \ {e.who}

\* a simulation gives what the same model gives in a process without other models (e.solo)
CheckAlone(e) ==
  LET s == Cfg(e.cfg)
      f == e.solo.r
  IN
  /\ Check("same IGP routes as alone", SameIgp(s, e.r, f), <<e.r.dmds, f.dmds>>)
  /\ LspsDetermined(s) => Check("same result as alone", SameAll(s, e.r, f), <<e.r, f>>)
  /\ (~LspsDetermined(s)) => Check("result allowed as that alone", Allowed(s, e.r) \/ ~Allowed(s, f), e.r)

Init == tid \in DOMAIN Traces /\ pos = 1 /\ seen = Step(1).sigs /\ st = <<>>
Next ==
  /\ pos < Len(Traces[tid].steps)
  /\ LET e == Step(pos + 1)
         changed == {m \in Others(e) : m \notin DOMAIN e.sigs \/ e.sigs[m] # seen[m]}
     IN /\ Check("other models are unchanged", changed = {}, <<e.ev, e.who, changed>>)
        /\ (e.ev.op = "new") =>
             /\ Check("a new model is what it was made from", e.made = e.wanted, <<e.ev, e.made>>)
             /\ Check("only the new model appears", DOMAIN e.sigs = DOMAIN seen \cup {e.who}, e.who)
        /\ Check("the models can be read", e.out # "unreadable", e.ev)
        \* reports, metrics and path queries of the models nobody acted on since they last answered
        /\ LET other == {k \in DOMAIN e.ans : e.ans[k].was # e.ans[k].now}
           IN Check("other models answer as before", other = {}, <<e.ev, e.who, {e.ans[k].who : k \in other}>>)
        /\ Has(e, "solo") => Check("simulates as alone", (e.out = "ok") = (e.solo.out = "ok"), <<e.out, e.solo.out>>)
        /\ (Has(e, "solo") /\ Has(e.solo, "r")) => CheckAlone(e)
        /\ seen' = e.sigs
  /\ (pos + 1 = Len(Traces[tid].steps)) => PrintT("DONE " \o Traces[tid].id)
  /\ pos' = pos + 1
  /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_ivars
=============================================================================
