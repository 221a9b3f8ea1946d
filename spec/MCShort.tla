-------------------------------- MODULE MCShort --------------------------------
(***************************************************************************)
(* Steering onto LSPs (P09, P10): small networks with every choice of      *)
(* shortcut nodes, and every candidate LSP absent or with one of a few     *)
(* metrics.  TLC checks laws of the steering operators for every way the   *)
(* LSPs may be routed; every configuration is simulated by the real code.  *)
(***************************************************************************)
EXTENDS Nets

CONSTANTS Tops, Metrics     \* 999: the LSP is absent, 998: it asks for more than there is (its metric is 1), 0: no manual metric
VARIABLE c

Net ==
  [chain   |-> [N |-> {"A", "B", "C", "D"}, C |-> <<C3("A", "B", 10), C3("B", "C", 10), C3("C", "D", 10)>>,
                L |-> <<<<"A", "C">>, <<"B", "D">>, <<"B", "C">>, <<"A", "B">>>>, S |-> {"A", "B", "C"}],
   diamond |-> [N |-> {"A", "B", "C", "D", "E"},
                C |-> <<C3("A", "B", 10), C3("A", "C", 10), C3("B", "D", 10), C3("C", "D", 10), C3("D", "E", 10)>>,
                L |-> <<<<"A", "D">>, <<"B", "E">>, <<"C", "D">>, <<"D", "E">>>>, S |-> {"A", "B", "C"}],
   uneven  |-> [N |-> {"A", "B", "C", "D", "E"},
                C |-> <<C3("A", "B", 10), C3("A", "C", 5), C3("C", "B", 5), C3("B", "D", 10), C3("B", "E", 5),
                        C3("E", "D", 5)>>,
                L |-> <<<<"A", "B">>, <<"B", "D">>, <<"C", "E">>, <<"A", "E">>>>, S |-> {"A", "B", "C"}],
   thick   |-> [N |-> {"A", "B", "C"}, C |-> <<C3("A", "B", 10), C3("A", "B", 10), C3("B", "C", 10), C3("A", "C", 20)>>,
                L |-> <<<<"A", "B">>, <<"A", "B">>, <<"B", "C">>, <<"B", "C">>>>, S |-> {"A", "B"}],
   \* end to end: parallel LSPs of different metrics
   ends    |-> [N |-> {"A", "B", "C"}, C |-> <<C3("A", "B", 10), C3("B", "C", 10), C3("A", "C", 15)>>,
                L |-> <<<<"A", "C">>, <<"A", "C">>, <<"A", "C">>, <<"A", "B">>>>, S |-> {"A"}]]
Dmds(t) ==
  LET far == CASE t = "chain" -> "D" [] t = "diamond" -> "E" [] t = "uneven" -> "D" [] OTHER -> "C" IN
  <<[s |-> "A", d |-> far, traf |-> 720], [s |-> "B", d |-> far, traf |-> 120], [s |-> far, d |-> "A", traf |-> 60]>>

\* the first state of a run chooses part of the configuration, so that the rest is spread over TLC's workers
Init == \E t \in Tops, a \in Metrics : \E SC \in SUBSET Net[t].S : c = [top |-> t, first |-> a, sc |-> SC]
Ready == "kind" \in DOMAIN c
Next ==
  /\ ~Ready
  /\ \E m \in [1..4 -> Metrics] :
       /\ m[1] = c.first
       /\ c' = Config("flex", Net[c.top].N, Net[c.top].C, Dmds(c.top),
                      FlattenSeq([i \in 1..4 |-> IF m[i] = 999 THEN <<>>
                         ELSE <<[s |-> Net[c.top].L[i][1], d |-> Net[c.top].L[i][2],
                                cfg |-> IF m[i] = 998 THEN 99990 ELSE 10, mm |-> IF m[i] = 998 THEN 1 ELSE m[i]]>>]), c.sc)
Spec == Init /\ [][Next]_c

\* any LSP may be unrouted
Results == {[lsps |-> [l \in DOMAIN c.lsps |-> [routed |-> l \in R]]] : R \in SUBSET DOMAIN c.lsps}
Ends == {<<c.dmds[d].src, c.dmds[d].dst>> : d \in DOMAIN c.dmds}
Chain(p, s, d) ==
  /\ Tail2(c, p[1]) = s /\ Head2(c, p[Len(p)]) = d
  /\ \A k \in 1..(Len(p) - 1) : Head2(c, p[k]) = Tail2(c, p[k + 1])
W(p) == SumSeq(p, LAMBDA x : ItemMetric(c, x))

\* what is ridden leads from end to end over routed LSPs and working interfaces, and delivers everything
Delivered == Ready =>
  \A r \in Results : \A e \in Ends :
    LET P == Rides(c, r, e[1], e[2])
        f == FlowMicro(c, P, 720)
        into(n) == SumOver({x \in DOMAIN f : Head2(c, x) = n}, LAMBDA x : f[x])
        from(n) == SumOver({x \in DOMAIN f : Tail2(c, x) = n}, LAMBDA x : f[x])
    IN /\ P # {} <=> IgpCost(c, e[1], e[2]) < INF
       /\ \A p \in P : Chain(p, e[1], e[2])
       /\ \A x \in ItemsOf(P) : IF IsLsp(c, x) THEN r.lsps[x].routed ELSE x \in Up(c)
       /\ P # {} => Abs(into(e[2]) - 72000000) <= 10 /\ Abs(from(e[1]) - 72000000) <= 10
       /\ \A n \in Nodes(c) \ Range1(e) : Abs(into(n) - from(n)) <= 10
\* LSPs that do not start where the demand does are only taken at nodes with shortcuts
OnlyEnabled == Ready =>
  \A r \in Results : \A e \in Ends : \A x \in ItemsOf(Rides(c, r, e[1], e[2])) :
    IsLsp(c, x) => \/ c.lsps[x].src = e[1] /\ c.lsps[x].dst = e[2]
                   \/ c.nodes[c.lsps[x].src].sc
\* with default metrics, shortcuts never change the cost of a demand's paths
DefaultCost ==
  (Ready /\ \A l \in DOMAIN c.lsps : c.lsps[l].mm = 0) =>
    \A r \in Results : \A e \in Ends : \A p \in Rides(c, r, e[1], e[2]) : W(p) = IgpCost(c, e[1], e[2])
\* all paths ridden have the same metric; end to end LSPs come before everything else
Equal == Ready =>
  \A r \in Results : \A e \in Ends :
    LET P == Rides(c, r, e[1], e[2])
        L == {l \in LspsOf(c, e) : r.lsps[l].routed}
    IN /\ \A p, q \in P : W(p) = W(q)
       /\ L # {} => P # {} /\ P \subseteq {<<l>> : l \in L}
Out == Ready => Emit("CASE", c)
=============================================================================
