-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* Calls that only read: path queries, reports and lookups, as functions   *)
(* of the state and of the result of the last simulation.                  *)
(***************************************************************************)
EXTENDS Route

SameList(s, S) == Cardinality(Range1(s)) = Len(s) /\ Range1(s) = S

(*************************** path queries (P13) ***************************)
\* rable: reservable bandwidth of each interface, in thousandths
HasBw(rable, i, bw) == bw = 0 \/ rable[i] >= bw

ShortestAnswer(st, E, q) ==
  LET P == BestPaths(st, E, q.s, q.d, LAMBDA i : CostOf(st, i))
      c == DistTo(st, E, q.d, LAMBDA i : CostOf(st, i))[q.s]
  IN /\ SameList(q.paths, P)
     /\ q.cost = IF P = {} THEN -1 ELSE c

QueryOk(st, rable, q) ==
  CASE q.q = "shortest" ->
         ShortestAnswer(st, {i \in Up(st) : HasBw(rable, i, q.bw)}, q)
    [] q.q = "all" ->
         SameList(q.paths,
           SimplePaths(st, {i \in (IF q.incl THEN Ifs(st) ELSE Up(st)) : HasBw(rable, i, q.bw)},
                       q.s, q.d, q.cutoff))
    [] q.q = "routed_lsp" ->
         ShortestAnswer(st,
           {i \in UpRsvp(st) :
              rable[i] + (IF \E k \in DOMAIN q.held : q.held[k] = i THEN q.own ELSE 0) >= q.bw}, q)
    [] OTHER -> FALSE

(*************************** reports (P14) ***************************)
OnItem(r, d, x) == \E p \in PathsOf(r, d) : \E k \in DOMAIN p : p[k] = x
RidesItem(st, r, d, x) == r.dmds[d].routed /\ OnItem(r, d, x)
\* demands on interface i, directly or inside an LSP
DmdsOn(st, r, i) ==
  {d \in RoutedDmds(st, r) : \E x \in ItemsOf(PathsOf(r, d)) : i \in Under(st, r, x)}

LspTrafficOk(st, r, fl, l, v) ==
  LET D == {d \in DOMAIN fl : l \in DOMAIN fl[d]} IN
  Abs(v - SumOver(D, LAMBDA d : fl[d][l])) <= 2 + 4 * Cardinality(D)

Key(a, b) == a \o "-" \o b
GroupReportOk(st, rep, objs) ==      \* rep: [key -> list of ids], objs: [id -> [src, dst, ..]]
  /\ DOMAIN rep = {Key(objs[x].src, objs[x].dst) : x \in DOMAIN objs}
  /\ \A k \in DOMAIN rep : SameList(rep[k], {x \in DOMAIN objs : Key(objs[x].src, objs[x].dst) = k})

BadReports(st, r, rep) ==
  LET D == DOMAIN st.dmds
      L == DOMAIN st.lsps
      R == RoutedDmds(st, r)
      fl == Flows(st, r)
      dmdsOnLsp(l) == {d \in R : OnItem(r, d, l)}
      routedL == {l \in L : r.lsps[l].routed}
      with == {l \in routedL : dmdsOnLsp(l) # {}}
      riding == {d \in R : \E x \in ItemsOf(PathsOf(r, d)) : IsLsp(st, x)}
      unrouted == {d \in D : ~r.dmds[d].routed}
      bad(name, ok) == IF ok THEN {} ELSE {name}
      g == rep.diag
  IN UNION {
      {<<"demands on interface", i>> : i \in {i \in Ifs(st) : ~SameList(rep.ifs[i].dm, DmdsOn(st, r, i))}},
      {<<"LSPs on interface", i>> : i \in {i \in Ifs(st) : ~SameList(rep.ifs[i].ls, {l \in L : OnPath(r, l, i)})}},
      {<<"demands on LSP", l>> : l \in {l \in L : ~SameList(rep.lsps[l].dm, dmdsOnLsp(l))}},
      {<<"traffic on LSP", l>> : l \in {l \in L : ~LspTrafficOk(st, r, fl, l, rep.lsps[l].traf)}},
      {<<"effective metric", l>> : l \in {l \in L : rep.lsps[l].em # EffMetric(st, r, l)}},
      {<<"topology metric", l>> : l \in {l \in L : rep.lsps[l].tm #
            (IF r.lsps[l].routed THEN PathCost(st, r.lsps[l].path) ELSE -1)}},
      bad("unrouted demands", SameList(rep.unrouted, unrouted)),
      bad("failed nodes", SameList(rep.fnodes, {n \in Nodes(st) : st.nodes[n].failed})),
      bad("working nodes", SameList(rep.unodes, {n \in Nodes(st) : ~st.nodes[n].failed})),
      bad("failed interfaces", SameList(rep.fifs, Ifs(st) \ Up(st))),
      bad("working interfaces", SameList(rep.uifs, Up(st))),
      bad("parallel LSP groups", GroupReportOk(st, rep.lgroups, st.lsps)),
      bad("parallel demand groups", GroupReportOk(st, rep.dgroups, st.dmds)),
      bad("demands by source", \A n \in Nodes(st) : SameList(rep.bysrc[n], {d \in D : st.dmds[d].src = n})),
      bad("demands by destination", \A n \in Nodes(st) : SameList(rep.bydst[n], {d \in D : st.dmds[d].dst = n})),
      bad("orphan nodes", SameList(rep.orphans, {n \in Nodes(st) : IfsOf(st, n) = {}})),
      bad("diagnostics: LSPs carrying demands", g.n_with = Cardinality(with) /\ SameList(g.with, with)),
      bad("diagnostics: LSPs without demands",
          g.n_without = Cardinality(routedL \ with) /\ SameList(g.without, routedL \ with)),
      bad("diagnostics: demands riding LSPs", g.n_riding = Cardinality(riding) /\ SameList(g.riding, riding)),
      bad("diagnostics: demands not riding LSPs", g.n_notriding = Cardinality(D \ riding)),
      bad("diagnostics: unrouted LSPs", g.n_unlsp = Cardinality(L \ routedL)),
      bad("diagnostics: unrouted demands", g.n_undmd = Cardinality(unrouted)) }

(*************************** printed displays (P21) ***************************)
Said(b) == IF b THEN "True" ELSE "False"
BadDisplays(st, k) ==
  LET bad(name, ok) == IF ok THEN {} ELSE {name}
  IN UNION {
      bad("node status", SameList(k.nodes, {<<n, Said(st.nodes[n].failed)>> : n \in Nodes(st)})),
      bad("interface status", SameList(k.ifs, {<<i, Said(st.ifs[i].failed)>> : i \in Ifs(st)})),
      bad("interface traffic", DOMAIN k.traf = Ifs(st) /\ SameList(k.traffic, {<<i, k.traf[i]>> : i \in Ifs(st)})),
      bad("interfaces", SameList(k.objects, Ifs(st))),
      bad("demands", SameList([n \in DOMAIN k.dmds |-> k.dmds[n].d], DOMAIN st.dmds)),
      {<<"paths of demand", x.d>> : x \in {x \in Range1(k.dmds) :
            x.d \in DOMAIN k.npaths => ~(x.same /\ x.n = k.npaths[x.d] /\ x.paths = x.n)}} }

(*************************** lookups (P20) ***************************)
CktIds(st) == {st.ifs[i].ckt : i \in Ifs(st)}
BadLookups(st, k) ==
  LET bad(name, ok) == IF ok THEN {} ELSE {name}
      adj(n) == {st.ifs[i].remote : i \in IfsOf(st, n)}
      between(a, b) == {i \in Ifs(st) : st.ifs[i].node = a /\ st.ifs[i].remote = b}
  IN UNION {
      bad("interface by name", DOMAIN k.ifs = Ifs(st) /\ \A i \in DOMAIN k.ifs : k.ifs[i].self = i),
      {<<"remote interface", i>> : i \in {i \in DOMAIN k.ifs : k.ifs[i].remote # Peer(st, i)}},
      {<<"circuit", i>> : i \in {i \in DOMAIN k.ifs : ~SameList(k.ifs[i].ckt, Circuit(st, i))}},
      {<<"circuit object", i>> : i \in {i \in DOMAIN k.ifs : ~SameList(k.ifs[i].ckt2, Circuit(st, i))}},
      {<<"circuit failed", i>> : i \in {i \in DOMAIN k.ifs :
            k.ifs[i].cktfailed # (\E j \in Circuit(st, i) : st.ifs[j].failed)}},
      {<<"circuit id", i>> : i \in {i \in DOMAIN k.ifs : ~k.ifs[i].cktid}},
      {<<"orphan", n>> : n \in {n \in DOMAIN k.nodes : k.nodes[n].orphan # (IfsOf(st, n) = {})}},
      bad("circuits", k.ncircuits = Cardinality(Circuits(st))),
      bad("circuit ids", st.kind = "flex" => Range1(k.cktids) = CktIds(st)),
      bad("node by name", DOMAIN k.nodes = Nodes(st) /\ \A n \in DOMAIN k.nodes : k.nodes[n].self = n),
      {<<"interfaces of node", n>> : n \in {n \in DOMAIN k.nodes : ~SameList(k.nodes[n].ifs, IfsOf(st, n))}},
      {<<"interfaces of node by name", n>> : n \in {n \in DOMAIN k.nodes : ~SameList(k.nodes[n].ifs2, IfsOf(st, n))}},
      {<<"neighbors", n>> : n \in {n \in DOMAIN k.nodes : ~SameList(k.nodes[n].adj, adj(n))}},
      bad("demand by name", DOMAIN k.dmds = DOMAIN st.dmds /\ \A d \in DOMAIN k.dmds : k.dmds[d] = d),
      bad("LSP by name", DOMAIN k.lsps = DOMAIN st.lsps /\ \A l \in DOMAIN k.lsps : k.lsps[l] = l),
      bad("group by name", DOMAIN k.srlgs = DOMAIN st.srlgs),
      {<<"group", g>> : g \in {g \in DOMAIN k.srlgs \cap DOMAIN st.srlgs :
            ~( /\ k.srlgs[g].self = g
               /\ SameList(k.srlgs[g].nodes, MemberNodes(st, g))
               /\ SameList(k.srlgs[g].ifs, MemberIfs(st, g)))}},
      bad("interfaces between nodes",
          \A x \in Range1(k.between) : SameList(x.ifs, between(x.a, x.b))),
      bad("absent objects are refused", \A x \in Range1(k.absent) : x.out # "ok"),
      bad("printable", k.repr = "ok") }
=============================================================================
