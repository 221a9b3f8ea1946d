-------------------------------- MODULE MCRoute --------------------------------
(***************************************************************************)
(* IGP routing on every weighting of small networks.  Every circuit of a   *)
(* network is absent, failed, or has one of a few costs in each direction. *)
(* TLC checks the routing operators against brute force and the flow laws; *)
(* every configuration is simulated by the real code.                      *)
(***************************************************************************)
EXTENDS Nets

CONSTANTS Tops, Kinds, Options
VARIABLE c

\* per network: nodes, circuits that can be there, demands
Net ==
  [square |-> [N |-> {"A", "B", "C", "D"}, par |-> FALSE,
               C |-> <<<<"A", "B">>, <<"B", "D">>, <<"A", "C">>, <<"D", "C">>, <<"B", "C">>, <<"A", "D">>>>,
               D |-> <<[s |-> "A", d |-> "D", traf |-> 900], [s |-> "D", d |-> "B", traf |-> 71]>>],
   thick  |-> [N |-> {"A", "B", "C"}, par |-> TRUE,
               C |-> <<<<"A", "B">>, <<"B", "A">>, <<"A", "B">>, <<"B", "C">>, <<"C", "B">>, <<"A", "C">>>>,
               D |-> <<[s |-> "A", d |-> "C", traf |-> 1000]>>],
   ladder |-> [N |-> {"A", "B", "C", "D", "E", "F"}, par |-> FALSE,
               C |-> <<<<"A", "B">>, <<"A", "C">>, <<"B", "D">>, <<"C", "D">>, <<"D", "E">>, <<"D", "F">>,
                       <<"E", "F">>>>,
               D |-> <<[s |-> "A", d |-> "F", traf |-> 720], [s |-> "F", d |-> "A", traf |-> 10]>>]]

\* options of a circuit
Opt(o, a, b) ==
  CASE o = "none" -> <<>>
    [] o = "one"  -> <<C3(a, b, 1)>>
    [] o = "two"  -> <<C3(a, b, 2)>>
    [] o = "ten"  -> <<C3(a, b, 10)>>
    [] o = "asym" -> <<[C3(a, b, 1) EXCEPT !.back = 3]>>
    [] o = "down" -> <<[C3(a, b, 1) EXCEPT !.failed = TRUE]>>
    [] o = "igp"  -> <<[C3(a, b, 1) EXCEPT !.rsvp = FALSE]>>

Init ==
  \E t \in Tops, k \in Kinds :
    /\ k = "perf" => ~Net[t].par
    /\ \E o \in [DOMAIN Net[t].C -> Options] :
         c = Config(k, Net[t].N,
                    FlattenSeq([i \in DOMAIN Net[t].C |-> Opt(o[i], Net[t].C[i][1], Net[t].C[i][2])]),
                    Net[t].D, <<>>, {})
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Pairs == {<<c.dmds[d].src, c.dmds[d].dst>> : d \in DOMAIN c.dmds}
\* lowest cost paths are the simple paths of lowest cost
BruteForce ==
  \A p \in Pairs :
    LET all == SimplePaths(c, Up(c), p[1], p[2], Cardinality(Nodes(c)))
        best == {q \in all : \A z \in all : PathCost(c, q) <= PathCost(c, z)}
    IN /\ IgpPaths(c, p[1], p[2]) = best
       /\ \A q \in best : IgpCost(c, p[1], p[2]) = PathCost(c, q) /\ IsPath(c, q, p[1], p[2])
       /\ best = {} <=> IgpCost(c, p[1], p[2]) >= INF
\* even splitting delivers all traffic, conserves it at every node and never exceeds it
Conserved ==
  \A p \in Pairs :
    LET P == IgpPaths(c, p[1], p[2])
        t == 720
        f == FlowMicro(c, P, t)
        nh == NextHops(c, P)
        into(n) == SumOver({x \in DOMAIN f : c.ifs[x].remote = n}, LAMBDA x : f[x])
        from(n) == SumOver({x \in DOMAIN f : c.ifs[x].node = n}, LAMBDA x : f[x])
    IN P # {} =>
       /\ into(p[2]) = t * 100000 /\ from(p[1]) = t * 100000
       /\ into(p[1]) = 0 /\ from(p[2]) = 0
       /\ \A n \in Nodes(c) \ {p[1], p[2]} : into(n) = from(n)
       /\ SumOver(P, LAMBDA q : (t * 100000) \div Splits(c, nh, q)) = t * 100000
       /\ \A n \in Nodes(c) : \A x, y \in nh[n] : f[x] = f[y]
\* without LSPs, shortcuts change nothing
NoShortcuts ==
  \A p \in Pairs :
    LET s == [c EXCEPT !.nodes = [n \in Nodes(c) |-> [c.nodes[n] EXCEPT !.sc = TRUE]]] IN
    ShortcutPaths(s, [lsps |-> <<>>], p[1], p[2]) = IgpPaths(c, p[1], p[2])
Out == Emit("CASE", c)
=============================================================================
