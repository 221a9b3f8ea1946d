-------------------------------- MODULE Topo --------------------------------
(***************************************************************************)
(* State of a pyNTM model and the calls that change it.                    *)
(*                                                                         *)
(* A model state st is a record                                            *)
(*   kind  : "flex" (parallel circuits, IGP shortcuts) or "perf"           *)
(*   nodes : [node name -> [failed, sc, srlgs, at]] sc: IGP shortcuts on   *)
(*           at: latitude and longitude, as text                         *)
(*   ifs   : [interface id -> [name, node, remote, ckt, cost, cap, rsvp,   *)
(*                             pct, failed, srlgs]]                        *)
(*   srlgs : [group name -> [failed]]                                      *)
(*   dmds  : [demand id -> [src, dst, name, traf]]       traf in tenths    *)
(*   lsps  : [LSP id -> [src, dst, name, cfg, mm]]       cfg in tenths,    *)
(*           cfg = -1: automatic bandwidth;  mm = 0: no manual metric      *)
(*                                                                         *)
(* Every public call is an operator Op(st, args) that yields the record    *)
(* [ok, st]: the outcome ("ok" or "refused") and the next state.  The      *)
(* calls are deterministic; the nondeterminism of the system (signaling    *)
(* order, random ties) is all in the simulation, see Route.tla.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

INF == 1000000000

Range1(s) == {s[k] : k \in DOMAIN s}

Ok(st)  == [ok |-> TRUE,  st |-> st]
Bad(st) == [ok |-> FALSE, st |-> st]

Nodes(st) == DOMAIN st.nodes
Ifs(st)   == DOMAIN st.ifs
IfId(node, name) == node \o "::" \o name
PairId(s, d, name) == s \o ">" \o d \o ">" \o name
LspId(s, d, name) == "L:" \o PairId(s, d, name)
DmdId(s, d, name) == "D:" \o PairId(s, d, name)

IfsOf(st, n) == {i \in Ifs(st) : st.ifs[i].node = n}

\* Two interfaces form a circuit
Mates(st, i, j) ==
  /\ st.ifs[i].node = st.ifs[j].remote
  /\ st.ifs[i].remote = st.ifs[j].node
  /\ st.kind = "perf" \/ st.ifs[i].ckt = st.ifs[j].ckt

HasPeer(st, i) == \E j \in Ifs(st) : j # i /\ Mates(st, i, j)
Peer(st, i) == CHOOSE j \in Ifs(st) : j # i /\ Mates(st, i, j)
Circuit(st, i) == {i, Peer(st, i)}
Circuits(st) == {Circuit(st, i) : i \in Ifs(st)}
WithPeers(st, S) == S \cup {Peer(st, i) : i \in S}

AnyFailed(st, groups) == \E g \in groups : st.srlgs[g].failed
NodesUp(st, i) == ~st.nodes[st.ifs[i].node].failed /\ ~st.nodes[st.ifs[i].remote].failed

SetIfs(st, S, b) ==
  [st EXCEPT !.ifs = [i \in Ifs(st) |->
      IF i \in S THEN [st.ifs[i] EXCEPT !.failed = b] ELSE st.ifs[i]]]
SetNode(st, n, b) == [st EXCEPT !.nodes[n].failed = b]

(*************************** failures ***************************)
FailIf(st, i) ==
  IF i \notin Ifs(st) THEN Bad(st) ELSE Ok(SetIfs(st, Circuit(st, i), TRUE))

\* raise: does an interface on a failed node refuse the call (or just ignore it)?
UnfailIf(st, i, raise) ==
  IF i \notin Ifs(st) THEN Bad(st)
  ELSE IF ~NodesUp(st, i) THEN [ok |-> ~raise, st |-> st]
  ELSE IF AnyFailed(st, st.ifs[i].srlgs) THEN Bad(st)
  ELSE Ok(SetIfs(st, Circuit(st, i), FALSE))

\* one end is set by hand and the model is validated, which makes the ends agree
HalfIf(st, i, b) ==
  IF b THEN FailIf(st, i)
  ELSE IF AnyFailed(st, st.ifs[i].srlgs) THEN Bad(st) ELSE Ok(st)

FailNodeSt(st, n) == SetNode(SetIfs(st, WithPeers(st, IfsOf(st, n)), TRUE), n, TRUE)
FailNode(st, n) == IF n \notin Nodes(st) THEN Bad(st) ELSE Ok(FailNodeSt(st, n))

\* circuits of node n that come back when n is restored
Restorable(st, n) ==
  WithPeers(st, {i \in IfsOf(st, n) : NodesUp(st, i) /\ ~AnyFailed(st, st.ifs[i].srlgs)})

UnfailNode(st, n) ==
  IF n \notin Nodes(st) THEN Bad(st)
  ELSE IF AnyFailed(st, st.nodes[n].srlgs) THEN Bad(st)
  ELSE LET s1 == SetNode(st, n, FALSE) IN Ok(SetIfs(s1, Restorable(s1, n), FALSE))

MemberNodes(st, g) == {n \in Nodes(st) : g \in st.nodes[n].srlgs}
MemberIfs(st, g)   == {i \in Ifs(st) : g \in st.ifs[i].srlgs}

FailSrlg(st, g) ==
  IF g \notin DOMAIN st.srlgs THEN Bad(st)
  ELSE LET M == MemberNodes(st, g)
           I == MemberIfs(st, g) \cup {i \in Ifs(st) : st.ifs[i].node \in M}
           s1 == SetIfs(st, WithPeers(st, I), TRUE)
       IN Ok([s1 EXCEPT !.srlgs[g].failed = TRUE,
                        !.nodes = [n \in Nodes(st) |->
                            IF n \in M THEN [st.nodes[n] EXCEPT !.failed = TRUE] ELSE st.nodes[n]]])

UnfailSrlg(st, g) ==
  IF g \notin DOMAIN st.srlgs THEN Bad(st)
  ELSE LET s0 == [st EXCEPT !.srlgs[g].failed = FALSE]
           M == {n \in MemberNodes(st, g) : ~AnyFailed(s0, st.nodes[n].srlgs)}
           s1 == [s0 EXCEPT !.nodes = [n \in Nodes(st) |->
                     IF n \in M THEN [s0.nodes[n] EXCEPT !.failed = FALSE] ELSE s0.nodes[n]]]
           I == MemberIfs(st, g) \cup {i \in Ifs(st) : st.ifs[i].node \in M}
           B == {i \in I : NodesUp(s1, i) /\ ~AnyFailed(s1, s1.ifs[i].srlgs)}
       IN Ok(SetIfs(s1, WithPeers(s1, B), FALSE))

(*************************** shared risk groups ***************************)
NewSrlg(st, g) == [st EXCEPT !.srlgs = (g :> [failed |-> FALSE]) @@ st.srlgs]
AddSrlg(st, g) == IF g \in DOMAIN st.srlgs THEN Bad(st) ELSE Ok(NewSrlg(st, g))

NodeJoin(st, n, g, create) ==
  IF g \notin DOMAIN st.srlgs
  THEN IF create
       THEN LET s1 == NewSrlg(st, g) IN Ok([s1 EXCEPT !.nodes[n].srlgs = @ \cup {g}])
       ELSE Bad(st)
  ELSE LET s1 == [st EXCEPT !.nodes[n].srlgs = @ \cup {g}]
       IN Ok(IF st.srlgs[g].failed THEN FailNodeSt(s1, n) ELSE s1)

\* leaving a group restores the node itself unless another failed group holds it
NodeLeave(st, n, g) ==
  IF g \notin DOMAIN st.srlgs \/ g \notin st.nodes[n].srlgs THEN Bad(st)
  ELSE LET s1 == [st EXCEPT !.nodes[n].srlgs = @ \ {g}]
           held == AnyFailed(s1, s1.nodes[n].srlgs)
       IN [ok |-> ~held, st |-> SetNode(s1, n, held)]

IfGroups(st, S, op(_)) ==
  [st EXCEPT !.ifs = [i \in Ifs(st) |->
      IF i \in S THEN [st.ifs[i] EXCEPT !.srlgs = op(st.ifs[i].srlgs)] ELSE st.ifs[i]]]

IfJoin(st, i, g, create) ==
  LET add(x) == x \cup {g} IN
  IF g \notin DOMAIN st.srlgs
  THEN IF create THEN Ok(IfGroups(NewSrlg(st, g), Circuit(st, i), add)) ELSE Bad(st)
  ELSE LET s1 == IfGroups(st, Circuit(st, i), add)
       IN Ok(IF st.srlgs[g].failed THEN SetIfs(s1, Circuit(st, i), TRUE) ELSE s1)

IfLeave(st, i, g) ==
  LET del(x) == x \ {g} IN
  IF g \notin DOMAIN st.srlgs \/ g \notin st.ifs[i].srlgs THEN Bad(st)
  ELSE LET s1 == IfGroups(st, Circuit(st, i), del)
           held == AnyFailed(s1, s1.ifs[i].srlgs)
       IN [ok |-> ~held,
           st |-> SetIfs(s1, Circuit(st, i), held \/ ~NodesUp(s1, i))]

(*************************** edits ***************************)
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NewIf(st, name, node, remote, ckt, cost, cap, failed) ==
  [name |-> name, node |-> node, remote |-> remote, ckt |-> IF st.kind = "perf" THEN "" ELSE ckt,
   cost |-> cost, cap |-> cap, rsvp |-> TRUE, pct |-> 100,
   failed |-> failed, srlgs |-> {}]

AddNode(st, n, at) ==
  IF n \in Nodes(st) THEN Bad(st)
  ELSE Ok([st EXCEPT !.nodes = Put(@, n, [failed |-> FALSE, sc |-> FALSE, srlgs |-> {}, at |-> at])])

Linked(st, a, b) == \E i \in Ifs(st) : st.ifs[i].node = a /\ st.ifs[i].remote = b

\* e: [a, b, na, nb, ca, cb, cap, failed, ckt]; ckt = "" when no circuit id is given
AddCircuit(st, e) ==
  LET ia == IfId(e.a, e.na)
      ib == IfId(e.b, e.nb)
      f == e.failed \/ st.nodes[e.a].failed \/ st.nodes[e.b].failed
  IN IF \/ e.a = e.b \/ e.ca < 1 \/ e.cb < 1 \/ e.cap <= 0
        \/ ia \in Ifs(st) \/ ib \in Ifs(st)
        \/ st.kind = "flex" /\ (e.ckt = "" \/ \E i \in Ifs(st) : st.ifs[i].ckt = e.ckt)
        \/ st.kind = "perf" /\ (Linked(st, e.a, e.b) \/ Linked(st, e.b, e.a))
     THEN Bad(st)
     ELSE Ok([st EXCEPT !.ifs = Put(Put(@, ia, NewIf(st, e.na, e.a, e.b, e.ckt, e.ca, e.cap, f)),
                                    ib, NewIf(st, e.nb, e.b, e.a, e.ckt, e.cb, e.cap, f))])

\* e.list: sequence of [a, b, na, nb, ca, cb, cap, capb, fa, fb, ckt, half]: circuits between (possibly
\* new) nodes, given to the call as a flat list of interfaces; half: the second interface is left out
ListFits(st, L) ==
  LET ends(k) == <<IfId(L[k].a, L[k].na), IfId(L[k].b, L[k].nb)>> IN
  \A k \in DOMAIN L :
    LET c == L[k] IN
    /\ c.a # c.b /\ ~c.half /\ c.cap = c.capb /\ c.cap > 0 /\ c.ca >= 1 /\ c.cb >= 1
    /\ \A x \in Range1(ends(k)) : x \notin Ifs(st) /\ \A m \in DOMAIN L \ {k} : x \notin Range1(ends(m))
    /\ st.kind = "perf" =>
         /\ ~Linked(st, c.a, c.b) /\ ~Linked(st, c.b, c.a)
         /\ \A m \in DOMAIN L \ {k} : {L[m].a, L[m].b} # {c.a, c.b}
AddList(st, e) ==
  LET L == Range1(e.list)
      names == {c.a : c \in L} \cup {c.b : c \in L}
      new == [n \in names \ Nodes(st) |-> [failed |-> FALSE, sc |-> FALSE, srlgs |-> {}, at |-> "0,0"]]
      s1 == [st EXCEPT !.nodes = @ @@ new]
      f(c) == c.fa \/ c.fb \/ s1.nodes[c.a].failed \/ s1.nodes[c.b].failed
      add(acc, c) == Put(Put(acc, IfId(c.a, c.na), NewIf(st, c.na, c.a, c.b, c.ckt, c.ca, c.cap, f(c))),
                         IfId(c.b, c.nb), NewIf(st, c.nb, c.b, c.a, c.ckt, c.cb, c.cap, f(c)))
  IN IF ListFits(st, e.list) THEN Ok([s1 EXCEPT !.ifs = FoldLeft(add, st.ifs, e.list)]) ELSE Bad(st)

AddDemand(st, s, d, traf, name) ==
  IF s = d \/ s \notin Nodes(st) \/ d \notin Nodes(st) \/ traf < 0 \/ DmdId(s, d, name) \in DOMAIN st.dmds
  THEN Bad(st)
  ELSE Ok([st EXCEPT !.dmds = Put(@, DmdId(s, d, name),
                                  [src |-> s, dst |-> d, name |-> name, traf |-> traf])])

AddLsp(st, s, d, name) ==
  IF s = d \/ s \notin Nodes(st) \/ d \notin Nodes(st) \/ LspId(s, d, name) \in DOMAIN st.lsps
  THEN Bad(st)
  ELSE Ok([st EXCEPT !.lsps = Put(@, LspId(s, d, name),
                                  [src |-> s, dst |-> d, name |-> name, cfg |-> -1, mm |-> 0])])

DelDemand(st, d) == Ok([st EXCEPT !.dmds = Drop(@, d)])
DelLsp(st, l)    == Ok([st EXCEPT !.lsps = Drop(@, l)])

Rename(st, n, old, new) ==
  LET i == IfId(n, old) IN
  IF i \notin Ifs(st) THEN Bad(st)
  ELSE Ok([st EXCEPT !.ifs = Put(Drop(@, i), IfId(n, new), [st.ifs[i] EXCEPT !.name = new])])

SetCost(st, i, c) == IF c < 1 THEN Bad(st) ELSE Ok([st EXCEPT !.ifs[i].cost = c])
SetCap(st, i, c) ==
  IF c <= 0 THEN Bad(st)
  ELSE Ok([st EXCEPT !.ifs = [j \in Ifs(st) |->
          IF j \in Circuit(st, i) THEN [st.ifs[j] EXCEPT !.cap = c] ELSE st.ifs[j]]])
SetRsvp(st, i, b) == Ok([st EXCEPT !.ifs[i].rsvp = b])
SetPct(st, i, p)  == Ok([st EXCEPT !.ifs[i].pct = p])
SetTraffic(st, d, t) == Ok([st EXCEPT !.dmds[d].traf = t])
SetSc(st, n, b)   == Ok([st EXCEPT !.nodes[n].sc = b])
SetCfg(st, l, c)  == Ok([st EXCEPT !.lsps[l].cfg = c])
\* positive integers set the metric, -1 clears it, anything else is refused
SetMetric(st, l, m) ==
  IF m > 0 THEN Ok([st EXCEPT !.lsps[l].mm = m])
  ELSE IF m = -1 THEN Ok([st EXCEPT !.lsps[l].mm = 0])
  ELSE Bad(st)

(*************************** one event ***************************)
\* the next state and outcome of event e; calls that only read or simulate leave st as it is
Apply(st, e) ==
  CASE e.op = "fail_if"     -> FailIf(st, e.i)
    [] e.op = "unfail_if"   -> UnfailIf(st, e.i, e.raise)
    [] e.op = "if_fail"     -> FailIf(st, e.i)
    [] e.op = "if_unfail"   -> UnfailIf(st, e.i, TRUE)
    [] e.op = "half_if"     -> HalfIf(st, e.i, e.v)
    [] e.op = "fail_node"   -> FailNode(st, e.n)
    [] e.op = "unfail_node" -> UnfailNode(st, e.n)
    [] e.op = "fail_srlg"   -> FailSrlg(st, e.g)
    [] e.op = "unfail_srlg" -> UnfailSrlg(st, e.g)
    [] e.op = "add_srlg"    -> AddSrlg(st, e.g)
    [] e.op = "node_join"   -> NodeJoin(st, e.n, e.g, e.create)
    [] e.op = "node_leave"  -> NodeLeave(st, e.n, e.g)
    [] e.op = "if_join"     -> IfJoin(st, e.i, e.g, e.create)
    [] e.op = "if_leave"    -> IfLeave(st, e.i, e.g)
    [] e.op = "add_node"    -> AddNode(st, e.n, e.at)
    [] e.op = "add_circuit" -> AddCircuit(st, e)
    [] e.op = "add_list"    -> AddList(st, e)
    [] e.op = "add_demand"  -> AddDemand(st, e.s, e.d, e.traf, e.name)
    [] e.op = "add_lsp"     -> AddLsp(st, e.s, e.d, e.name)
    [] e.op = "del_demand"  -> DelDemand(st, e.id)
    [] e.op = "del_lsp"     -> DelLsp(st, e.id)
    [] e.op = "rename"      -> Rename(st, e.n, e.old, e.new)
    [] e.op = "set_cost"    -> SetCost(st, e.i, e.v)
    [] e.op = "set_cap"     -> SetCap(st, e.i, e.v)
    [] e.op = "set_rsvp"    -> SetRsvp(st, e.i, e.v)
    [] e.op = "set_pct"     -> SetPct(st, e.i, e.v)
    [] e.op = "set_traffic" -> SetTraffic(st, e.id, e.v)
    [] e.op = "set_sc"      -> SetSc(st, e.n, e.v)
    [] e.op = "set_at"      -> Ok([st EXCEPT !.nodes[e.n].at = e.v])
    [] e.op = "set_cfg"     -> SetCfg(st, e.id, e.v)
    [] e.op = "set_metric"  -> SetMetric(st, e.id, e.v)
    \* an attribute is given a value that it must not take
    [] e.op = "bad"         -> Bad(st)
    [] OTHER                -> Ok(st)

FailureOps == {"fail_if", "unfail_if", "if_fail", "if_unfail", "half_if", "fail_node", "unfail_node",
               "fail_srlg", "unfail_srlg", "node_join", "node_leave", "if_join", "if_leave"}

(*************************** properties of states ***************************)
\* P01
CircuitsAgree(st) == \A i \in Ifs(st) : st.ifs[i].failed = st.ifs[Peer(st, i)].failed
NodeDownIfsDown(st) ==
  \A i \in Ifs(st) : ~NodesUp(st, i) => st.ifs[i].failed
GroupDownMembersDown(st) ==
  \A g \in DOMAIN st.srlgs : st.srlgs[g].failed =>
     /\ \A n \in MemberNodes(st, g) : st.nodes[n].failed
     /\ \A i \in MemberIfs(st, g) : st.ifs[i].failed
GroupsOnBothEnds(st) == \A i \in Ifs(st) : st.ifs[i].srlgs = st.ifs[Peer(st, i)].srlgs
FailureConsistent(st) ==
  CircuitsAgree(st) /\ NodeDownIfsDown(st) /\ GroupDownMembersDown(st) /\ GroupsOnBothEnds(st)

\* P15: is this configuration a valid model?
DupIds(st) == {}
ValidModel(st) ==
  /\ \A i \in Ifs(st) : HasPeer(st, i)
  /\ \A i \in Ifs(st) : st.ifs[i].cap = st.ifs[Peer(st, i)].cap
  /\ st.kind = "perf" =>
       /\ \A i, j \in Ifs(st) : i # j => ~(/\ st.ifs[i].node = st.ifs[j].node
                                           /\ st.ifs[i].remote = st.ifs[j].remote)
       /\ \A n \in Nodes(st) : ~st.nodes[n].sc
=============================================================================
