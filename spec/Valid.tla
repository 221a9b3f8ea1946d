-------------------------------- MODULE Valid --------------------------------
(***************************************************************************)
(* Which models are valid (P15).  A raw model is [kind, nodes, ifs] with   *)
(* sequences of [name, sc] and [node, name, remote, ckt, cap], so that it  *)
(* can hold what a valid model cannot: duplicates and unpaired interfaces. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NodeIds(m) == {m.nodes[k].name : k \in DOMAIN m.nodes}
Pairs(m, a, b) ==
  /\ m.ifs[a].node = m.ifs[b].remote
  /\ m.ifs[a].remote = m.ifs[b].node
  /\ m.kind = "perf" \/ m.ifs[a].ckt = m.ifs[b].ckt

OneCounterpart(m) == \A a \in DOMAIN m.ifs : Cardinality({b \in DOMAIN m.ifs : b # a /\ Pairs(m, a, b)}) = 1
EqualCapacity(m) == \A a, b \in DOMAIN m.ifs : Pairs(m, a, b) => m.ifs[a].cap = m.ifs[b].cap
NamesUnique(m) ==
  \A a, b \in DOMAIN m.ifs : a # b => ~(m.ifs[a].node = m.ifs[b].node /\ m.ifs[a].name = m.ifs[b].name)
NodesUnique(m) == Cardinality(NodeIds(m)) = Len(m.nodes)
NoParallel(m) ==
  \A a, b \in DOMAIN m.ifs : a # b => ~(m.ifs[a].node = m.ifs[b].node /\ m.ifs[a].remote = m.ifs[b].remote)
NoShortcuts(m) == \A k \in DOMAIN m.nodes : ~m.nodes[k].sc

Defects(m) ==
  (IF OneCounterpart(m) THEN {} ELSE {"counterpart"})
  \cup (IF EqualCapacity(m) THEN {} ELSE {"capacity"})
  \cup (IF NamesUnique(m) THEN {} ELSE {"interface names"})
  \cup (IF NodesUnique(m) THEN {} ELSE {"node names"})
  \cup (IF m.kind = "flex" \/ NoParallel(m) THEN {} ELSE {"parallel"})
  \cup (IF m.kind = "flex" \/ NoShortcuts(m) THEN {} ELSE {"shortcuts"})
RawValid(m) == Defects(m) = {}
=============================================================================
