------------------------------ MODULE TracePair ------------------------------
(***************************************************************************)
(* The same calls on a flexible and on a performance model of the same     *)
(* topology (P18).  st is the state of the flexible one; the performance   *)
(* model must be in the same state but for its kind and circuit ids.       *)
(***************************************************************************)
EXTENDS TraceBase

Plain(s) == [nodes |-> s.nodes, srlgs |-> s.srlgs, dmds |-> s.dmds, lsps |-> s.lsps,
             ifs |-> [i \in DOMAIN s.ifs |-> [s.ifs[i] EXCEPT !.ckt = ""]]]

\* the traffic of the performance model is rounded per demand and path
PairTol(s, r, i) == 8 + 53 * SumOver(RoutedDmds(s, r), LAMBDA d : Len(r.dmds[d].paths))
SameLsps(s, a, b) ==
  \A l \in DOMAIN s.lsps :
    LET x == a.lsps[l]
        y == b.lsps[l]
    IN x.routed = y.routed /\ x.path = y.path /\ x.resv = y.resv /\ x.setup = y.setup /\ x.em = y.em
SamePaths(a, b, D) ==
  \A d \in D : a.dmds[d].routed = b.dmds[d].routed /\ PathsOf(a, d) = PathsOf(b, d)
SameLoad(s, a, b) ==
  \A i \in Ifs(s) :
    /\ a.ifs[i].resv = b.ifs[i].resv /\ a.ifs[i].rable = b.ifs[i].rable
    /\ (a.ifs[i].traf = -1) = (b.ifs[i].traf = -1)
    /\ Near(a.ifs[i].traf, b.ifs[i].traf, PairTol(s, a, i))
SameReports(a, b) == \A k \in DOMAIN a : k = "ifs" \/ k = "lsps" \/ a[k] = b[k]

CheckPair(e, s) ==
  LET p == Cfg(e.pcfg)
      noLsp == {d \in DOMAIN s.dmds : LspsOf(s, <<s.dmds[d].src, s.dmds[d].dst>>) = {}}
      det == LspsDetermined(s)
      ok == e.out = "ok" /\ e.pout = "ok"
  IN
  \* an addition validated against reservations of before the last deletion is refused or not
  \* depending on which of the equally good placements of the LSPs each model had chosen
  /\ ~Has(e, "stale") => Check("same outcome", (e.out = "ok") = (e.pout = "ok"), <<e.ev, e.out, e.pout>>)
  /\ Check("same state", Plain(s) = Plain(p), <<e.ev, Diff(Plain(s), Plain(p))>>)
  /\ Has(e, "errs") => Fail("the models can be read", e.errs)
  /\ (Has(e, "r") /\ Has(e, "pr") /\ ok) =>
       IF ~(Sane(s, e.r) /\ Sane(s, e.pr)) THEN Fail("results readable", "")
       ELSE
       /\ Check("same IGP paths", SamePaths(e.r, e.pr, noLsp), <<e.r.dmds, e.pr.dmds>>)
       /\ det => Check("same LSPs", SameLsps(s, e.r, e.pr), <<e.r.lsps, e.pr.lsps>>)
       /\ det => Check("same demand paths", SamePaths(e.r, e.pr, DOMAIN s.dmds), <<e.r.dmds, e.pr.dmds>>)
       /\ det => Check("same load", SameLoad(s, e.r, e.pr), <<e.r.ifs, e.pr.ifs>>)
       /\ (det /\ Has(e, "rep") /\ Has(e, "prep")) =>
            Check("same reports", SameReports(e.rep, e.prep), <<e.rep, e.prep>>)
  /\ Has(e, "q") =>
       \A k \in DOMAIN e.q :
         LET a == e.q[k].a
             b == e.q[k].b
         IN Check("same answer to a query",
                  /\ (a.out = "ok") = (b.out = "ok")
                  /\ a.out = "ok" => /\ Range1(a.paths) = Range1(b.paths) /\ Len(a.paths) = Len(b.paths)
                                     /\ a.cost = b.cost,
                  e.q[k])

Init ==
  /\ tid \in DOMAIN Traces
  /\ pos = 1
  /\ st = Cfg(Step(1).cfg)

Next ==
  /\ pos < Len(Traces[tid].steps)
  /\ LET e == Step(pos + 1)
         ob == Cfg(e.cfg)
     IN IF WellFormed(ob)
        THEN /\ CheckPair(e, ob)
             /\ st' = ob
             /\ pos' = pos + 1
             /\ (pos + 1 = Len(Traces[tid].steps)) => PrintT("DONE " \o Traces[tid].id)
        ELSE /\ Fail("state is a network", e.ev)
             /\ st' = st
             /\ pos' = Len(Traces[tid].steps)
             /\ PrintT("DONE " \o Traces[tid].id)
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
