------------------------------- MODULE TraceMap -------------------------------
(***************************************************************************)
(* The weather map (P19): its data, and a user's session with its page.    *)
(*                                                                         *)
(* The state of the page is what is selected (a demand sd, an LSP sl, an   *)
(* interface si, "" for none), the node nn chosen in the node list, the    *)
(* source and destination chosen in the demand and LSP lists, and the      *)
(* shown utilization ranges.  Everything the page shows is a function of   *)
(* this state and of the simulated model, except that the lists of a path  *)
(* keep what they showed when an unrouted demand or LSP is selected.       *)
(***************************************************************************)
EXTENDS Route, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, sd, sl, si, nn, ch, cols
vars == <<tid, pos, sd, sl, si, nn, ch, cols>>

T == Traces[tid]
S == T.cfg
R == T.r
Step(n) == T.steps[n]

FailAt(n, clause, detail) ==
  PrintT("FAIL " \o ToJson([prop |-> IOEnv.PROP, trace |-> T.id, step |-> n, clause |-> clause, detail |-> detail]))
Check(n, clause, ok, detail) == IF ok THEN TRUE ELSE FailAt(n, clause, detail)
IsSet(s) == Cardinality(Range1(s)) = Len(s)
SameSet(s, X) == IsSet(s) /\ Range1(s) = X

(*************************** data of the map ***************************)
Label(pct) ==
  CASE pct = -1 -> "failed" [] pct >= 100 -> "100+" [] pct >= 90 -> "90-99" [] pct >= 75 -> "75-89"
    [] pct >= 50 -> "50-74" [] pct >= 25 -> "25-49" [] OTHER -> "0-24"
Labels == {"0-24", "25-49", "50-74", "75-89", "90-99", "100+", "failed"}

Linked1 == {n \in Nodes(S) : \E i \in Ifs(S) : S.ifs[i].node = n}
NodeElOk(e) ==
  /\ e.id \in Nodes(S) /\ e.label = e.id
  /\ e.x = T.pos[e.id].x /\ e.y = T.pos[e.id].y
  /\ e.failed = S.nodes[e.id].failed
EdgeOk(d, e) ==
  /\ e.id \in Ifs(S)
  /\ e.ckt = T.ckts[e.id] /\ e.cap = S.ifs[e.id].cap /\ e.cost = S.ifs[e.id].cost
  /\ e.util = R.ifs[e.id].util
  /\ (e.util = -1) = S.ifs[e.id].failed
  /\ e.group = d.legend[Label(e.pct)]
  /\ \E m \in Range1(d.els.mids) :
        /\ m.id = e.target
        /\ Range1(m.neighbors) = {S.ifs[e.id].node, S.ifs[e.id].remote}
MidOk(m) ==
  LET a == m.neighbors[1]
      b == m.neighbors[2]
  IN /\ Len(m.neighbors) = 2
     /\ m.x * 2 = T.pos[a].x + T.pos[b].x
     /\ m.y * 2 = T.pos[a].y + T.pos[b].y
     /\ m.id \notin Nodes(S)

PairsOf(t) == IF t = "demand" THEN {<<S.dmds[d].src, S.dmds[d].dst>> : d \in DOMAIN S.dmds} ELSE Groups(S)
SrcOf(t, d) == {p[1] : p \in {q \in PairsOf(t) : d = "" \/ q[2] = d}}
DstOf(t, s) == {p[2] : p \in {q \in PairsOf(t) : s = "" \/ q[1] = s}}

UnderDmds(D) == UNION {UNION {UNION {Under(S, R, x) : x \in Range1(p)} : p \in PathsOf(R, d)} :
                       d \in {d \in D : R.dmds[d].routed}}
LspsUnder(D) == UNION {UNION {{x \in Range1(p) : IsLsp(S, x)} : p \in PathsOf(R, d)} :
                       d \in {d \in D : R.dmds[d].routed}}
EndsOf(I) == {S.ifs[i].node : i \in I} \cup {S.ifs[i].remote : i \in I}

DataOk(d) ==
  LET bad(name, ok) == IF ok THEN {} ELSE {name} IN
  UNION {
    bad("legend", DOMAIN d.legend = Labels /\ d.legend2 = d.legend
                  /\ Cardinality({d.legend[l] : l \in Labels}) = Cardinality(Labels)),
    {<<"color", p>> : p \in {p \in Range1(d.probes) : p.group # d.legend[Label(p.pct)]}},
    {<<"node", e>> : e \in {e \in Range1(d.els.nodes) : ~NodeElOk(e)}},
    {<<"midpoint", e>> : e \in {e \in Range1(d.els.mids) : ~MidOk(e)}},
    {<<"edge", e>> : e \in {e \in Range1(d.els.edges) : ~EdgeOk(d, e)}},
    bad("all nodes with interfaces are there", Linked1 \subseteq {e.id : e \in Range1(d.els.nodes)}),
    bad("one edge per interface", Len(d.els.edges) = Cardinality(Ifs(S))
                                  /\ {e.id : e \in Range1(d.els.edges)} = Ifs(S)),
    bad("circuit ids pair the interfaces",
        \A i, j \in Ifs(S) : i # j => (T.ckts[i] = T.ckts[j]) = (Peer(S, i) = j)),
    bad("node list", SameSet(d.nodes, Nodes(S)) /\ SameSet(T.lay, Nodes(S)) /\ T.lay = d.nodes),
    {<<"sources", n>> : n \in {n \in Nodes(S) : \E t \in {"demand", "lsp"} : ~SameSet(d.src[n][t], SrcOf(t, n))}},
    {<<"destinations", n>> : n \in {n \in Nodes(S) : \E t \in {"demand", "lsp"} : ~SameSet(d.dst[n][t], DstOf(t, n))}},
    bad("sources and destinations of demands",
        SameSet(d.allsd.ds, SrcOf("demand", "")) /\ SameSet(d.allsd.dd, DstOf("demand", ""))),
    bad("sources and destinations of LSPs",
        SameSet(d.allsl.ls, SrcOf("lsp", "")) /\ SameSet(d.allsl.ld, DstOf("lsp", ""))),
    bad("interfaces and LSPs of demands",
        /\ SameSet(d.sub.ifs, UnderDmds(Range1(d.sub.dmds)))
        /\ SameSet(d.sub.lsps, LspsUnder(Range1(d.sub.dmds)))),
    {<<"interfaces of LSP", l>> : l \in {l \in DOMAIN d.lspdata :
        ~( /\ d.lspdata[l].ifs = R.lsps[l].path
           /\ SameSet(d.lspdata[l].nodes, EndsOf(Range1(R.lsps[l].path))))}},
    bad("data of routed LSPs", DOMAIN d.lspdata = RoutedLsps(S, R)) }

(*************************** the page ***************************)
Ids(list) == [k \in DOMAIN list |-> list[k].id]
OffersIfs(list, I) ==
  /\ SameSet(Ids(list), I)
  /\ \A x \in Range1(list) : /\ x.dest = S.ifs[x.id].remote /\ x.ckt = T.ckts[x.id]
                             /\ x.cost = S.ifs[x.id].cost /\ x.label
Offers(list, X) == SameSet(Ids(list), X) /\ \A x \in Range1(list) : x.label

DmdsOn(i) == {d \in DOMAIN S.dmds : i \in UnderDmds({d})}
LspsOn(i) == {l \in RoutedLsps(S, R) : OnPath(R, l, i)}
DmdsRiding(l) == {d \in DOMAIN S.dmds : l \in LspsUnder({d})}
Matching(t, s, d) ==
  IF s = "" /\ d = "" THEN {}
  ELSE LET ok(x) == (s = "" \/ x.src = s) /\ (d = "" \/ x.dst = d) IN
       IF t = "demand" THEN {x \in DOMAIN S.dmds : ok(S.dmds[x])} ELSE {x \in DOMAIN S.lsps : ok(S.lsps[x])}

Routed(d) == d # "" /\ R.dmds[d].routed
RoutedL(l) == l # "" /\ R.lsps[l].routed

\* what is wrong with what the page shows in step n, after event e, in state (d, l, i, nn, ch, cols)
BadPage(n, d, l, i, node, c, colors) ==
  LET st == Step(n)
      ls == st.lists
      dd == st.dd
      prev(comp) == IF n = 1 THEN <<>> ELSE Step(n - 1).lists[comp]
      bad(name, ok) == IF ok THEN {} ELSE {name}
      choice(t) == LET s == c[t].s
                       e == c[t].d
                       srcs == IF s = "" THEN SrcOf(t, e) ELSE {s}
                       dsts == IF e = "" THEN DstOf(t, s) ELSE {e}
                   IN <<srcs, dsts, Matching(t, s, e)>>
      cd == choice("demand")
      cl == choice("lsp")
      group == {x \in DOMAIN S.dmds : S.dmds[x].src = S.dmds[d].src /\ S.dmds[x].dst = S.dmds[d].dst}
      dI == IF Routed(d) THEN UnderDmds(group) ELSE {}
      lI == IF RoutedL(l) THEN Range1(R.lsps[l].path) ELSE {}
      egress(I) == {[ckt |-> T.ckts[x], n |-> S.ifs[x].node] : x \in I}
  IN UNION {
      bad("callbacks answer", st.bad = <<>>),
      bad("selected demand", st.sel.d.id = d /\ (d # "" => st.sel.d.routed = R.dmds[d].routed)),
      bad("selected LSP", st.sel.l.id = l /\ (l # "" => st.sel.l.routed = R.lsps[l].routed)),
      bad("selected interface", st.sel.i.id = i
          /\ (i # "" => /\ st.sel.i.dest = S.ifs[i].remote /\ st.sel.i.ckt = T.ckts[i]
                        /\ st.sel.i.cost = S.ifs[i].cost /\ st.sel.i.util = R.ifs[i].util)),
      bad("interfaces on node", IF node = "" THEN ls["interfaces-on-node"] = <<>>
                                ELSE OffersIfs(ls["interfaces-on-node"], IfsOf(S, node))),
      bad("demand sources", SameSet(dd["demand-source-callback"], cd[1])),
      bad("demand destinations", SameSet(dd["demand-destination-callback"], cd[2])),
      bad("demands found", Offers(ls["find-demands-callback"], cd[3])),
      bad("LSP sources", SameSet(dd["lsp-source-callback"], cl[1])),
      bad("LSP destinations", SameSet(dd["lsp-destination-callback"], cl[2])),
      bad("LSPs found", Offers(ls["find-lsps-callback"], cl[3])),
      bad("demands on interface", Offers(ls["interface-demand-callback"], IF i = "" THEN {} ELSE DmdsOn(i))),
      bad("LSPs on interface", Offers(ls["interface-lsp-callback"], IF i = "" THEN {} ELSE LspsOn(i))),
      bad("demands on LSP", Offers(ls["lsp-demand-callback"], IF RoutedL(l) THEN DmdsRiding(l) ELSE {})),
      bad("interfaces of LSP",
          IF l # "" /\ ~RoutedL(l) THEN ls["lsp-interface-callback"] = prev("lsp-interface-callback")
          ELSE OffersIfs(ls["lsp-interface-callback"], lI)),
      bad("interfaces of demand",
          IF d # "" /\ ~Routed(d) THEN ls["demand-path-interfaces"] = prev("demand-path-interfaces")
          ELSE OffersIfs(ls["demand-path-interfaces"], IF d = "" THEN {} ELSE UnderDmds({d}))),
      bad("LSPs of demand",
          IF d # "" /\ ~Routed(d) THEN ls["demand-path-lsps"] = prev("demand-path-lsps")
          ELSE Offers(ls["demand-path-lsps"], IF d = "" THEN {} ELSE LspsUnder({d}))),
      \* a list of objects has one more entry, which selects nothing
      bad("entry that clears", \A comp \in DOMAIN ls : ls[comp] # <<>> => st.clears[comp] = 1),
      bad("highlights", st.style.base /\ st.style.other = 0),
      bad("highlighted ranges", SameSet(st.style.colors, Range1(colors))),
      bad("highlighted demand", /\ Range1(st.style.dedges) = egress(dI) /\ Range1(st.style.dnodes) = EndsOf(dI)),
      bad("highlighted LSP", /\ Range1(st.style.ledges) = egress(lI) /\ Range1(st.style.lnodes) = EndsOf(lI)),
      bad("highlighted interface", Range1(st.style.sedges) = IF i = "" THEN {} ELSE egress({i})) }

Report(n, bad) == IF bad = {} THEN TRUE ELSE FailAt(n, "page", <<Step(n).ev, bad>>)

NoChoice == [demand |-> [s |-> "", d |-> ""], lsp |-> [s |-> "", d |-> ""]]

Init ==
  /\ tid \in DOMAIN Traces
  /\ pos = 1
  /\ sd = "" /\ sl = "" /\ si = "" /\ nn = "" /\ ch = NoChoice /\ cols = T.initial
  /\ Check(1, "the model was not changed", T.same, T.id)
  /\ Check(1, "simulation of a valid model succeeds", T.sim = "ok", T.sim)
  /\ LET bad == DataOk(Step(1).data) IN IF bad = {} THEN TRUE ELSE FailAt(1, "data", bad)
  /\ Report(1, BadPage(1, "", "", "", "", NoChoice, T.initial))
  /\ Len(T.steps) = 1 => PrintT("DONE " \o T.id)

Next ==
  /\ pos < Len(T.steps)
  /\ LET e == Step(pos + 1).ev
         pick(k, cur) == IF e.op = "pick" /\ e.k = k /\ e.id # "-" THEN e.id
                         ELSE IF e.op = "clear" /\ e.k = k THEN "" ELSE cur
         i1 == IF e.op = "edge" THEN (IF e.id = "-" THEN si ELSE e.id) ELSE pick("i", si)
     IN /\ sd' = pick("d", sd)
        /\ sl' = pick("l", sl)
        /\ si' = i1
        /\ nn' = IF e.op = "node" THEN e.n ELSE nn
        /\ ch' = IF e.op = "dd" THEN [ch EXCEPT ![e.t] = [s |-> e.s, d |-> e.d]] ELSE ch
        /\ cols' = IF e.op = "colors" THEN e.colors ELSE cols
  /\ Report(pos + 1, BadPage(pos + 1, sd', sl', si', nn', ch', cols'))
  /\ (pos + 1 = Len(T.steps)) => PrintT("DONE " \o T.id)
  /\ pos' = pos + 1
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
