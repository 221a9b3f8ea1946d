------------------------------- MODULE MCValid -------------------------------
(***************************************************************************)
(* All raw models over a small universe of interfaces, with at most MaxIfs of *)
(* them.  Every one is a state, is checked against the laws of the         *)
(* definition of validity, and is printed to be built in the real code.    *)
(***************************************************************************)
EXTENDS Valid, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Pairs2, Names, Ckts, Caps, MaxIfs, Kinds, NodeSets
VARIABLE m

Universe(k) ==
  [node : {p[1] : p \in Pairs2}, remote : {p[2] : p \in Pairs2}, name : Names,
   ckt : IF k = "perf" THEN {""} ELSE Ckts, cap : Caps]
Links(k) == {i \in Universe(k) : <<i.node, i.remote>> \in Pairs2}

TwoPairs == {<<"A", "B">>, <<"B", "A">>}
ThreePairs == {<<"A", "B">>, <<"B", "A">>, <<"B", "C">>, <<"C", "B">>, <<"A", "C">>}
N(name, sc, lat) == [name |-> name, sc |-> sc, lat |-> lat]
TwoNodes == {<<N("A", FALSE, 0), N("B", FALSE, 0)>>, <<N("A", TRUE, 0), N("B", FALSE, 0)>>,
             <<N("A", FALSE, 0), N("B", FALSE, 0), N("B", FALSE, 5)>>,
             <<N("A", FALSE, 0), N("B", FALSE, 0), N("C", FALSE, 0)>>}
ThreeNodes == {<<N("A", FALSE, 0), N("B", FALSE, 0), N("C", FALSE, 0)>>}

Init ==
  \E k \in Kinds, ns \in NodeSets : \E n \in 0..MaxIfs : \E s \in kSubset(n, Links(k)) :
    m = [kind |-> k, nodes |-> ns, ifs |-> SetToSeq(s)]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m

Emit == PrintT("CASE " \o ToJson(m))
\* laws of validity
Without(S) == [m EXCEPT !.ifs = SelectSeq(m.ifs, LAMBDA i : i \notin S)]
EvenCount == RawValid(m) => Len(m.ifs) % 2 = 0
\* taking any circuit out of a valid model leaves a valid one, taking out a single interface does not
CircuitsIndependent ==
  RawValid(m) => \A a, b \in DOMAIN m.ifs : a # b /\ Pairs(m, a, b) =>
     RawValid(Without({m.ifs[a], m.ifs[b]})) /\ ~RawValid(Without({m.ifs[a]}))
PerfIsStricter ==
  LET p == [m EXCEPT !.kind = "perf"] IN
  (/\ m.kind = "flex" /\ RawValid(p)
   /\ \A a, b \in DOMAIN m.ifs : Pairs(p, a, b) => m.ifs[a].ckt = m.ifs[b].ckt) => RawValid(m)
=============================================================================
