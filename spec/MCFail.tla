-------------------------------- MODULE MCFail --------------------------------
(***************************************************************************)
(* All failure states of small networks, from all up and in no group,      *)
(* under every failure, restoration and group membership call.             *)
(* TLC checks the invariants of P01 in every state and the laws of P02     *)
(* for every call in every state, and prints every state with its calls,   *)
(* all of which are then made on the real code from that state.            *)
(***************************************************************************)
EXTENDS Topo, Json

CONSTANTS Tops,       \* names of topologies
          Groups2,    \* names of groups
          MaxMembers  \* bound on group memberships (a circuit counts once)
VARIABLE st

Ck(kind, k, a, b) ==
  LET nm(x) == x \o k
      end(x, y) == [name |-> nm("e"), node |-> x, remote |-> y, ckt |-> IF kind = "perf" THEN "" ELSE k,
                    cost |-> 10, cap |-> 1000, rsvp |-> TRUE, pct |-> 100, failed |-> FALSE, srlgs |-> {}]
  IN (IfId(a, nm("e")) :> end(a, b)) @@ (IfId(b, nm("e")) :> end(b, a))

\* each topology: kind, and a sequence of circuits <<a, b>>
Net ==
  [pair     |-> [kind |-> "flex", N |-> {"A", "B"}, C |-> <<<<"A", "B">>, <<"B", "A">>>>],
   triple   |-> [kind |-> "flex", N |-> {"A", "B"}, C |-> <<<<"A", "B">>, <<"A", "B">>, <<"A", "B">>>>],
   chain    |-> [kind |-> "perf", N |-> {"A", "B", "C"}, C |-> <<<<"A", "B">>, <<"B", "C">>>>],
   fchain   |-> [kind |-> "flex", N |-> {"A", "B", "C"}, C |-> <<<<"A", "B">>, <<"C", "B">>, <<"B", "C">>>>],
   triangle |-> [kind |-> "perf", N |-> {"A", "B", "C"}, C |-> <<<<"A", "B">>, <<"B", "C">>, <<"C", "A">>>>],
   star     |-> [kind |-> "flex", N |-> {"A", "B", "C", "D"}, C |-> <<<<"A", "B">>, <<"A", "C">>, <<"A", "D">>>>]]

Start(t) ==
  LET net == Net[t] IN
  [kind |-> net.kind,
   nodes |-> [n \in net.N |-> [failed |-> FALSE, sc |-> FALSE, srlgs |-> {}, at |-> "0,0"]],
   ifs |-> FoldLeft(LAMBDA acc, k : acc @@ Ck(net.kind, ToString(k), net.C[k][1], net.C[k][2]),
                    <<>>, [k \in DOMAIN net.C |-> k]),
   srlgs |-> <<>>, dmds |-> <<>>, lsps |-> <<>>]

Members(s) ==
  FoldSet(LAMBDA n, acc : acc + Cardinality(s.nodes[n].srlgs), 0, Nodes(s))
  + FoldSet(LAMBDA i, acc : acc + Cardinality(s.ifs[i].srlgs), 0, Ifs(s)) \div 2

Calls(s) ==
  {[op |-> o, i |-> i] : o \in {"fail_if", "if_fail", "if_unfail"}, i \in Ifs(s)}
  \cup {[op |-> "half_if", i |-> i, v |-> b] : i \in Ifs(s), b \in BOOLEAN}
  \cup {[op |-> "unfail_if", i |-> i, raise |-> b] : i \in Ifs(s), b \in BOOLEAN}
  \cup {[op |-> o, n |-> n] : o \in {"fail_node", "unfail_node"}, n \in Nodes(s)}
  \cup {[op |-> o, g |-> g] : o \in {"fail_srlg", "unfail_srlg", "add_srlg"}, g \in Groups2}
  \cup {[op |-> "node_join", n |-> n, g |-> g, create |-> b] : n \in Nodes(s), g \in Groups2, b \in BOOLEAN}
  \cup {[op |-> "if_join", i |-> i, g |-> g, create |-> b] : i \in Ifs(s), g \in Groups2, b \in BOOLEAN}
  \cup {[op |-> "node_leave", n |-> n, g |-> g] : n \in Nodes(s), g \in Groups2}
  \cup {[op |-> "if_leave", i |-> i, g |-> g] : i \in Ifs(s), g \in Groups2}

Init == st \in {Start(t) : t \in Tops}
Next == \E e \in Calls(st) : st' = Apply(st, e).st
Spec == Init /\ [][Next]_st

Small == Members(st) <= MaxMembers

(*************************** P01 ***************************)
Consistent == FailureConsistent(st)

(*************************** P02 ***************************)
Down(s) == {i \in Ifs(s) : s.ifs[i].failed}
DownN(s) == {n \in Nodes(s) : s.nodes[n].failed}
Changed(a, b) == {i \in Ifs(a) : a.ifs[i].failed # b.ifs[i].failed}
ChangedN(a, b) == {n \in Nodes(a) : a.nodes[n].failed # b.nodes[n].failed}
At(s, n) == {i \in Ifs(s) : n \in {s.ifs[i].node, s.ifs[i].remote}}
Concerned(s, e) ==
  CASE e.op \in {"fail_if", "if_fail", "if_unfail", "unfail_if", "half_if", "if_join", "if_leave"} -> Circuit(s, e.i)
    [] e.op \in {"fail_node", "unfail_node", "node_join", "node_leave"} -> At(s, e.n)
    [] OTHER -> MemberIfs(s, e.g) \cup UNION {At(s, n) : n \in MemberNodes(s, e.g)}
ConcernedN(s, e) ==
  CASE e.op \in {"fail_node", "unfail_node", "node_join", "node_leave"} -> {e.n}
    [] e.op \in {"fail_srlg", "unfail_srlg"} -> MemberNodes(s, e.g)
    [] OTHER -> {}

\* nothing but the objects concerned changes; failing fails, restoring restores
Frame ==
  \A e \in Calls(st) :
    LET t == Apply(st, e).st IN
    /\ Changed(st, t) \subseteq Concerned(st, e)
    /\ ChangedN(st, t) \subseteq ConcernedN(st, e)
    /\ e.op \in {"fail_if", "if_fail", "fail_node", "fail_srlg", "node_join", "if_join"} =>
         Down(st) \subseteq Down(t) /\ DownN(st) \subseteq DownN(t)
    /\ e.op \in {"unfail_if", "if_unfail", "unfail_node", "unfail_srlg"} =>
         Down(t) \subseteq Down(st) /\ DownN(t) \subseteq DownN(st)
    /\ ~Apply(st, e).ok /\ e.op \notin {"node_leave", "if_leave"} => t = st
    /\ e.op \in {"fail_if", "if_fail"} => Circuit(st, e.i) \subseteq Down(t)
    /\ e.op = "fail_node" => e.n \in DownN(t) /\ At(st, e.n) \subseteq Down(t)
    /\ e.op = "unfail_node" /\ Apply(st, e).ok => e.n \notin DownN(t)
    /\ e.op \in {"unfail_if", "if_unfail"} /\ Apply(st, e).ok /\ NodesUp(st, e.i) => e.i \notin Down(t)
    /\ e.op \in {"fail_srlg", "fail_node", "fail_if", "unfail_node", "unfail_srlg"} => Apply(t, e).st = t

\* a restoration undoes a failure of something that was up
Undo ==
  /\ \A n \in Nodes(st) \ DownN(st) :
       At(st, n) \cap Down(st) = {} => UnfailNode(FailNodeSt(st, n), n) = Ok(st)
  /\ \A i \in Ifs(st) \ Down(st) : UnfailIf(FailIf(st, i).st, i, TRUE) = Ok(st)
  /\ \A g \in DOMAIN st.srlgs :
       (/\ ~st.srlgs[g].failed
        /\ Concerned(st, [op |-> "fail_srlg", g |-> g]) \cap Down(st) = {}
        /\ MemberNodes(st, g) \cap DownN(st) = {})
       => UnfailSrlg(FailSrlg(st, g).st, g) = Ok(st)

\* a restored object is up unless something else still holds it down
Restores ==
  /\ \A g \in DOMAIN st.srlgs :
       LET t == UnfailSrlg(st, g).st IN
       /\ ~t.srlgs[g].failed
       /\ \A n \in MemberNodes(st, g) : t.nodes[n].failed <=> AnyFailed(t, t.nodes[n].srlgs)
       /\ \A i \in MemberIfs(st, g) : t.ifs[i].failed <=> (~NodesUp(t, i) \/ AnyFailed(t, t.ifs[i].srlgs))
  /\ \A n \in Nodes(st) :
       LET r == UnfailNode(st, n) IN r.ok =>
       \A i \in At(st, n) : r.st.ifs[i].failed <=> (~NodesUp(r.st, i) \/ AnyFailed(r.st, r.st.ifs[i].srlgs))

\* the part of a state that these calls change
View(s) ==
  [n |-> DownN(s), i |-> Down(s), g |-> {g \in DOMAIN s.srlgs : s.srlgs[g].failed}, all |-> DOMAIN s.srlgs,
   nm |-> UNION {{<<n, g>> : g \in s.nodes[n].srlgs} : n \in Nodes(s)},
   im |-> UNION {{<<i, g>> : g \in s.ifs[i].srlgs} : i \in Ifs(s)}]
Emit ==
  Small => PrintT("CASE " \o ToJson([cfg |-> st,
     evs |-> {LET r == Apply(st, e) IN <<e, r.ok, IF r.st = st THEN <<>> ELSE <<View(r.st)>>>> : e \in Calls(st)}]))
=============================================================================
