------------------------------ MODULE TraceLoad ------------------------------
(* Model files loaded by the real code, and what came of it (P16). *)
EXTENDS Load, Valid, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
vars == <<tid, pos>>
Step(n) == Traces[tid].steps[n]

Cfg(c) ==
  [kind  |-> c.kind,
   nodes |-> [n \in DOMAIN c.nodes |-> [c.nodes[n] EXCEPT !.srlgs = Range1(@)]],
   ifs   |-> [i \in DOMAIN c.ifs |-> [c.ifs[i] EXCEPT !.srlgs = Range1(@)]],
   srlgs |-> c.srlgs, dmds |-> c.dmds, lsps |-> c.lsps]
Raw(st) ==
  [kind |-> st.kind,
   nodes |-> SetToSeq({[name |-> n, sc |-> st.nodes[n].sc] : n \in Nodes(st)}),
   ifs |-> SetToSeq({[node |-> st.ifs[i].node, name |-> st.ifs[i].name, remote |-> st.ifs[i].remote,
                      ckt |-> st.ifs[i].ckt, cap |-> st.ifs[i].cap] : i \in Ifs(st)})]
Check(clause, ok, detail) ==
  IF ok THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([prop |-> IOEnv.PROP, trace |-> Traces[tid].id, step |-> pos + 1,
                                 clause |-> clause, detail |-> detail]))
Same(f, g) == {x \in DOMAIN f \cup DOMAIN g : ~(x \in DOMAIN f /\ x \in DOMAIN g /\ f[x] = g[x])}

CheckStep(e) ==
  LET want == Load(e.file)
      ok == e.out = "ok"
  IN /\ want.ok => Check("a well-formed file is loaded", ok, e.out)
     /\ ~want.ok => Check("a malformed file is refused", ~ok, Refused(e.file))
     /\ (want.ok /\ ok) =>
          LET st == Cfg(e.cfg) IN
          /\ Check("interfaces as described", st.ifs = want.st.ifs, Same(st.ifs, want.st.ifs))
          /\ Check("nodes as described", st.nodes = want.st.nodes, Same(st.nodes, want.st.nodes))
          /\ Check("demands as described", st.dmds = want.st.dmds, Same(st.dmds, want.st.dmds))
          /\ Check("LSPs as described", st.lsps = want.st.lsps, Same(st.lsps, want.st.lsps))
          /\ Check("positions as described", e.geo = want.geo, Same(e.geo, want.geo))
          /\ Check("no groups", st.srlgs = <<>> \/ DOMAIN st.srlgs = {}, st.srlgs)
          /\ Check("nodes are shared by the model's objects", e.shared, "")
          /\ Check("simulated iff the file describes a valid model", (e.sim = "ok") = RawValid(Raw(want.st)), e.sim)
          /\ (e.sim = "ok") => Check("unchanged by the simulation", Cfg(e.after) = st, "")

Init == tid \in DOMAIN Traces /\ pos = 1
Next ==
  /\ pos < Len(Traces[tid].steps)
  /\ CheckStep(Step(pos + 1))
  /\ (pos + 1 = Len(Traces[tid].steps)) => PrintT("DONE " \o Traces[tid].id)
  /\ pos' = pos + 1
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
