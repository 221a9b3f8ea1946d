--------------------------------- MODULE Nets ---------------------------------
(* Builders of small configurations for the exhaustive models.              *)
EXTENDS Route, Json

End(kind, k, x, y, cost, cap, rsvp, failed) ==
  [name |-> "e" \o k, node |-> x, remote |-> y, ckt |-> IF kind = "perf" THEN "" ELSE k,
   cost |-> cost, cap |-> 10 * cap, rsvp |-> rsvp, pct |-> 100, failed |-> failed, srlgs |-> {}]
\* circuit number k, x: [a, b, cost, back, cap, rsvp, failed]
Ckt(kind, k, x) ==
  (IfId(x.a, "e" \o k) :> End(kind, k, x.a, x.b, x.cost, x.cap, x.rsvp, x.failed))
  @@ (IfId(x.b, "e" \o k) :> End(kind, k, x.b, x.a, x.back, x.cap, x.rsvp, x.failed))

C3(a, b, cost) == [a |-> a, b |-> b, cost |-> cost, back |-> cost, cap |-> 100, rsvp |-> TRUE, failed |-> FALSE]

\* C: sequence of circuits, D: sequence of [s, d, traf], L: sequence of [s, d, cfg, mm], SC: nodes with shortcuts
Config(kind, N, C, D, L, SC) ==
  [kind |-> kind,
   nodes |-> [n \in N |-> [failed |-> FALSE, sc |-> n \in SC, srlgs |-> {}, at |-> "0,0"]],
   ifs |-> FoldLeft(LAMBDA acc, k : acc @@ Ckt(kind, ToString(k), C[k]), <<>>, [k \in DOMAIN C |-> k]),
   srlgs |-> <<>>,
   dmds |-> FoldLeft(LAMBDA acc, k : LET nm == "d" \o ToString(k) IN
                       acc @@ (DmdId(D[k].s, D[k].d, nm) :>
                               [src |-> D[k].s, dst |-> D[k].d, name |-> nm, traf |-> D[k].traf]),
                     <<>>, [k \in DOMAIN D |-> k]),
   lsps |-> FoldLeft(LAMBDA acc, k : LET nm == "l" \o ToString(k) IN
                       acc @@ (LspId(L[k].s, L[k].d, nm) :>
                               [src |-> L[k].s, dst |-> L[k].d, name |-> nm, cfg |-> L[k].cfg, mm |-> L[k].mm]),
                     <<>>, [k \in DOMAIN L |-> k])]

Emit(tag, c) == PrintT(tag \o " " \o ToJson(c))
=============================================================================
