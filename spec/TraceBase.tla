------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation: histories recorded from the real code, checked step   *)
(* by step against Topo (every call) and Route (the simulation).           *)
(*                                                                         *)
(* Every behaviour of this module is one recorded history.  st is the      *)
(* state of the specification.  A step applies the specification's action  *)
(* for the recorded call to st, compares outcome, observed state, results  *)
(* and answers with what the specification allows, prints a FAIL line for  *)
(* each clause of property Prop that does not hold, and goes on from the   *)
(* observed state.                                                         *)
(***************************************************************************)
EXTENDS Route, Query, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, pos, st
vars == <<tid, pos, st>>

Has(rec, f) == f \in DOMAIN rec

\* recorded configuration -> state
Cfg(c) ==
  [kind  |-> c.kind,
   nodes |-> [n \in DOMAIN c.nodes |-> [c.nodes[n] EXCEPT !.srlgs = Range1(@)]],
   ifs   |-> [i \in DOMAIN c.ifs |-> [c.ifs[i] EXCEPT !.srlgs = Range1(@)]],
   srlgs |-> c.srlgs,
   dmds  |-> c.dmds,
   lsps  |-> c.lsps]

\* Manual metrics that were not observed (-2) are taken from the specification
Observed(s, want) ==
  [s EXCEPT !.lsps = [l \in DOMAIN s.lsps |->
      IF s.lsps[l].mm = -2 /\ l \in DOMAIN want.lsps
      THEN [s.lsps[l] EXCEPT !.mm = want.lsps[l].mm] ELSE s.lsps[l]]]

WellFormed(s) ==
  /\ \A i \in Ifs(s) : /\ HasPeer(s, i) /\ {s.ifs[i].node, s.ifs[i].remote} \subseteq Nodes(s)
                       /\ s.ifs[i].srlgs \subseteq DOMAIN s.srlgs
  /\ \A n \in Nodes(s) : s.nodes[n].srlgs \subseteq DOMAIN s.srlgs

FailAt(n, clause, detail) ==
  PrintT("FAIL " \o ToJson([prop |-> Prop, trace |-> Traces[tid].id, step |-> n,
                            clause |-> clause, detail |-> detail]))
Fail(clause, detail) == FailAt(pos + 1, clause, detail)
Check(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)
CheckAll(clause, S, ok(_)) ==
  LET bad == {x \in S : ~ok(x)} IN IF bad = {} THEN TRUE ELSE Fail(clause, bad)
On(p, c) == IF Prop = p THEN c ELSE TRUE

\* the parts of two states that differ
Diff(a, b) ==
  LET d(f, g) == {x \in DOMAIN f \cup DOMAIN g :
                    ~(x \in DOMAIN f /\ x \in DOMAIN g /\ f[x] = g[x])}
  IN d(a.nodes, b.nodes) \cup d(a.ifs, b.ifs) \cup d(a.srlgs, b.srlgs)
     \cup d(a.dmds, b.dmds) \cup d(a.lsps, b.lsps)

Near(x, y, tol) == Abs(x - y) <= tol
IsSet(s) == Cardinality(Range1(s)) = Len(s)
SameSet(s, S) == IsSet(s) /\ Range1(s) = S

(*************************** results of a simulation ***************************)
Exact == Traces[tid].exact
\* can result r be read at all?
Sane(s, r) ==
  /\ DOMAIN r.ifs = Ifs(s) /\ DOMAIN r.dmds = DOMAIN s.dmds /\ DOMAIN r.lsps = DOMAIN s.lsps
  /\ \A l \in DOMAIN r.lsps : r.lsps[l].routed => Range1(r.lsps[l].path) \subseteq Ifs(s)
  /\ \A d \in DOMAIN r.dmds : r.dmds[d].routed =>
        /\ r.dmds[d].paths # <<>>
        /\ \A p \in PathsOf(r, d) : p # <<>> /\ \A x \in Range1(p) :
              IsItem(s, x) /\ (IsLsp(s, x) => r.lsps[x].routed)

E2E(s, r, d) == \E l \in LspsOf(s, <<s.dmds[d].src, s.dmds[d].dst>>) : r.lsps[l].routed
Expected(s, r, d) == Rides(s, r, s.dmds[d].src, s.dmds[d].dst)
\* no LSP leads from a node with shortcuts on a lowest-cost path of d to a node further along;
\* where one does, other paths may lose against it, or it may lose against them (P10)
NoShortcut(s, r, d) ==
  \A p \in IgpPaths(s, s.dmds[d].src, s.dmds[d].dst) : \A j, k \in DOMAIN p :
     (j <= k /\ s.nodes[Tail2(s, p[j])].sc) =>
        \A l \in LspsOf(s, <<Tail2(s, p[j]), Head2(s, p[k])>>) : ~r.lsps[l].routed
MayShortcut(s) == s.kind = "flex" /\ \E n \in Nodes(s) : s.nodes[n].sc

\* P03
IgpOk(s, r, d) ==
  LET P == IgpPaths(s, s.dmds[d].src, s.dmds[d].dst) IN
  /\ r.dmds[d].routed <=> P # {}
  /\ r.dmds[d].routed => SameSet(r.dmds[d].paths, P)
PlainDmds(s, r) ==
  {d \in DOMAIN s.dmds : ~E2E(s, r, d) /\ (MayShortcut(s) => NoShortcut(s, r, d))}

\* P09
E2EOk(s, r, d) ==
  /\ r.dmds[d].routed
  /\ SameSet(r.dmds[d].paths, {<<l>> : l \in Lowest(s, r, s.dmds[d].src, s.dmds[d].dst)})
NotE2EOk(s, r, d) ==
  r.dmds[d].routed =>
    \A p \in PathsOf(r, d) : ~(IsLsp(s, p[1]) /\ Head2(s, p[1]) = s.dmds[d].dst
                               /\ Tail2(s, p[1]) = s.dmds[d].src)

\* P10
RidesOk(s, r, d) ==
  LET P == Expected(s, r, d) IN
  /\ r.dmds[d].routed <=> P # {}
  /\ r.dmds[d].routed => SameSet(r.dmds[d].paths, P)

\* P05: traffic on a working interface.  Each item of a demand may be off by the rounding of its class
LoadTol(s, r, L) ==
  60 + SumOver(L, LAMBDA z : IF E2E(s, r, z[1]) THEN 2
                           ELSE IF s.kind = "perf" \/ IsLsp(s, z[2]) THEN 52 ELSE 2)
LoadOk(s, r, fl, i) ==
  IF s.ifs[i].failed THEN r.ifs[i].traf = -1 /\ r.ifs[i].util = -1
  ELSE LET L == Loads(s, r, fl, i) IN
       r.ifs[i].traf # -1 /\
       Near(r.ifs[i].traf, SumOver(L, LAMBDA z : fl[z[1]][z[2]]), LoadTol(s, r, L) - 58)
\* utilization in hundredths of a percent: traffic / capacity
UtilOk(s, r, i) ==
  s.ifs[i].failed \/
  Near(r.ifs[i].util * s.ifs[i].cap, r.ifs[i].traf * 100, s.ifs[i].cap \div 2 + 60)

\* P04: the traffic a demand's details put on each item is what even splitting at each hop gives,
\* and traffic is conserved at every node
DetFlow(r, d, x) ==
  SumSeq(r.dmds[d].det, LAMBDA e : IF \E k \in DOMAIN e.items : e.items[k] = x THEN e.traf ELSE 0)
SplitOk(s, r, fl, d) ==
  LET f == fl[d] IN
  /\ DOMAIN f = UNION {Range1(e.items) : e \in Range1(r.dmds[d].det)}
  /\ \A x \in DOMAIN f : Near(f[x], DetFlow(r, d, x), 3 + 2 * Len(r.dmds[d].det))
NodeFlowOk(s, fl, d) ==
  LET f == fl[d]
      into(n) == SumOver({x \in DOMAIN f : Head2(s, x) = n}, LAMBDA x : f[x])
      from(n) == SumOver({x \in DOMAIN f : Tail2(s, x) = n}, LAMBDA x : f[x])
      t(n) == 100 * s.dmds[d].traf * ((IF n = s.dmds[d].src THEN 1 ELSE 0)
                                      - (IF n = s.dmds[d].dst THEN 1 ELSE 0))
  IN \A n \in Nodes(s) : Near(into(n) + t(n), from(n), 2 + Cardinality(DOMAIN f))
\* what enters a node on working interfaces (plus what starts there) leaves it or ends there
TotalFlowOk(s, r, n) ==
  LET tr(i) == IF r.ifs[i].traf = -1 THEN 0 ELSE r.ifs[i].traf
      in1 == SumOver({i \in Ifs(s) : s.ifs[i].remote = n}, tr)
      out == SumOver({i \in Ifs(s) : s.ifs[i].node = n}, tr)
      R == RoutedDmds(s, r)
      starts == SumOver({d \in R : s.dmds[d].src = n}, LAMBDA d : 100 * s.dmds[d].traf)
      ends == SumOver({d \in R : s.dmds[d].dst = n}, LAMBDA d : 100 * s.dmds[d].traf)
      deg == Cardinality({i \in Ifs(s) : n \in {s.ifs[i].node, s.ifs[i].remote}})
  IN Near(in1 + starts, out + ends, 5 + 52 * deg * Cardinality(R))

\* P06
LspPathOk(s, r, l) ==
  r.lsps[l].routed =>
    /\ IsPath(s, r.lsps[l].path, s.lsps[l].src, s.lsps[l].dst)
    /\ Range1(r.lsps[l].path) \subseteq UpRsvp(s)
    /\ r.lsps[l].cost = PathCost(s, r.lsps[l].path)
DeterminedOk(s, r, l) ==
  LET P == AlonePaths(s, l) IN
  /\ r.lsps[l].routed <=> P # {}
  /\ r.lsps[l].routed => r.lsps[l].path \in P

\* P07
HeldBy(s, r, i) == {l \in DOMAIN s.lsps : OnPath(r, l, i)}
HeldOk(s, r, i) ==
  Near(r.ifs[i].resv, SumOver(HeldBy(s, r, i), LAMBDA l : r.lsps[l].resv),
       IF Exact THEN 0 ELSE 52 * Cardinality(HeldBy(s, r, i)))
RoomOk(s, r, i) ==
  /\ r.ifs[i].resv >= 0
  /\ r.ifs[i].resv <= Limit(s, i) + (IF Exact THEN 0 ELSE 60 * Cardinality(HeldBy(s, r, i)))
  /\ (s.ifs[i].failed \/ ~s.ifs[i].rsvp) => r.ifs[i].resv = 0
  /\ IF s.ifs[i].rsvp THEN Near(r.ifs[i].rable, Limit(s, i) - r.ifs[i].resv, 51)
     ELSE r.ifs[i].rable = -1000

\* P08.  A third of something is not a whole number of thousandths
ShareTol == IF Exact THEN 0 ELSE 1
LspBwOk(s, r, l) ==
  LET g == <<s.lsps[l].src, s.lsps[l].dst>>
      o == r.lsps[l]
      one == InitialBw(s, l, g)
      R == RoutedOf(s, r, g)
      two == Share(s, g, Cardinality(R))
  IN IF ~o.routed THEN o.resv = -1 /\ Near(o.setup, one, ShareTol)
     ELSE /\ o.resv = o.setup
          /\ \/ Near(o.resv, one, ShareTol)
             \/ s.lsps[l].cfg < 0 /\ Resignals(s, r, g) /\ Near(o.resv, two, ShareTol)

\* P11
DetailOk(s, r, d) ==
  LET o == r.dmds[d] IN
  IF ~o.routed THEN ~o.hasdet
  ELSE LET P == PathsOf(r, d)
           nh == NextHops(s, P)
           t(n) == (100 * s.dmds[d].traf) \div n
       IN /\ o.hasdet
          /\ Len(o.det) = Len(o.paths)
          /\ {e.items : e \in Range1(o.det)} = P
          /\ \A e \in Range1(o.det) :
               /\ Near(e.traf, t(Splits(s, nh, e.items)), 1)
               /\ e.hassp =>
                    /\ DOMAIN e.sp = Range1(e.items)
                    /\ \A k \in DOMAIN e.items :
                         e.sp[e.items[k]] = Splits(s, nh, SubSeq(e.items, 1, k))
               /\ ~e.hassp => (s.kind = "flex" /\ E2E(s, r, d))
          /\ Near(SumSeq(o.det, LAMBDA e : e.traf), 100 * s.dmds[d].traf, Len(o.det))

\* everything that a simulation result must be, in one predicate (P12)
Allowed(s, r) ==
  /\ Sane(s, r)
  /\ \A l \in DOMAIN s.lsps : LspPathOk(s, r, l) /\ LspBwOk(s, r, l)
  /\ \A i \in Ifs(s) : HeldOk(s, r, i) /\ RoomOk(s, r, i) /\ UtilOk(s, r, i)
  /\ \A d \in DOMAIN s.dmds : IF E2E(s, r, d) THEN E2EOk(s, r, d) ELSE RidesOk(s, r, d)
  /\ \A d \in DOMAIN s.dmds : DetailOk(s, r, d)
  /\ \A d \in DOMAIN s.dmds : r.dmds[d].hasdet <=> r.dmds[d].routed
  /\ LET fl == Flows(s, r) IN \A i \in Ifs(s) : LoadOk(s, r, fl, i)
  /\ \A l \in DOMAIN s.lsps : r.lsps[l].em = EffMetric(s, r, l)
  /\ Exact => Explained(s, r, TRUE)

\* two results for one configuration agree where there is nothing to choose
SameIgp(s, r1, r2) ==
  \A d \in DOMAIN s.dmds :
    LspsOf(s, <<s.dmds[d].src, s.dmds[d].dst>>) = {} /\ ~MayShortcut(s) =>
      /\ r1.dmds[d].routed = r2.dmds[d].routed
      /\ Range1(r1.dmds[d].paths) = Range1(r2.dmds[d].paths)
SameAll(s, r1, r2) ==
  /\ \A i \in Ifs(s) :
       /\ Near(r1.ifs[i].traf, r2.ifs[i].traf, 160)
       /\ (r1.ifs[i].traf = -1) = (r2.ifs[i].traf = -1)
       \* sums are rounded to tenths as they grow, so odd amounts may differ by the order they come in
       /\ LET tol == IF Exact THEN 0 ELSE 100 * Cardinality({l \in DOMAIN s.lsps : r1.lsps[l].routed})
          IN Near(r1.ifs[i].resv, r2.ifs[i].resv, tol) /\ Near(r1.ifs[i].rable, r2.ifs[i].rable, tol)
  /\ \A l \in DOMAIN s.lsps :
       LET a == r1.lsps[l]
           b == r2.lsps[l]
       IN a.routed = b.routed /\ a.path = b.path /\ a.resv = b.resv
          /\ a.setup = b.setup /\ a.em = b.em
  /\ \A d \in DOMAIN s.dmds :
       /\ r1.dmds[d].routed = r2.dmds[d].routed
       /\ Range1(r1.dmds[d].paths) = Range1(r2.dmds[d].paths)

CheckResult(s, r) ==
  IF ~Sane(s, r) THEN Fail("result readable", "unknown objects or empty paths in result")
  ELSE
  LET D == DOMAIN s.dmds
      L == DOMAIN s.lsps
  IN
  /\ On("P03", CheckAll("paths are all and only the lowest cost ones", PlainDmds(s, r),
                        LAMBDA d : IgpOk(s, r, d)))
  /\ On("P04",
       LET fl == Flows(s, r) IN
       /\ CheckAll("split evenly at each hop", RoutedDmds(s, r), LAMBDA d : SplitOk(s, r, fl, d))
       /\ CheckAll("traffic conserved for demand", RoutedDmds(s, r), LAMBDA d : NodeFlowOk(s, fl, d))
       /\ CheckAll("traffic conserved at node", Nodes(s), LAMBDA n : TotalFlowOk(s, r, n))
       /\ CheckAll("interface carries its share", Up(s), LAMBDA i : LoadOk(s, r, fl, i)))
  /\ On("P05",
       LET fl == Flows(s, r) IN
       /\ CheckAll("traffic is the sum of the demands' shares", Ifs(s), LAMBDA i : LoadOk(s, r, fl, i))
       /\ CheckAll("utilization", Ifs(s), LAMBDA i : UtilOk(s, r, i)))
  /\ On("P06",
       /\ CheckAll("path of LSP", L, LAMBDA l : LspPathOk(s, r, l))
       /\ LspsDetermined(s) => CheckAll("LSP takes its only best path", L, LAMBDA l : DeterminedOk(s, r, l))
       /\ Exact => Check("some signaling order explains the LSPs", Explained(s, r, TRUE), r.lsps))
  /\ On("P07",
       /\ CheckAll("reserved bandwidth is the sum held", Ifs(s), LAMBDA i : HeldOk(s, r, i))
       /\ CheckAll("reservations fit the interface", Ifs(s), LAMBDA i : RoomOk(s, r, i)))
  /\ On("P08",
       /\ CheckAll("LSP bandwidth", L, LAMBDA l : LspBwOk(s, r, l))
       /\ Exact => Check("some signaling order explains the bandwidths", Explained(s, r, FALSE), r.lsps))
  /\ On("P09",
       /\ CheckAll("rides the lowest metric LSPs", {d \in D : E2E(s, r, d)}, LAMBDA d : E2EOk(s, r, d))
       /\ CheckAll("rides no LSP", {d \in D : ~E2E(s, r, d)}, LAMBDA d : NotE2EOk(s, r, d))
       /\ CheckAll("routed iff a way exists", {d \in D : ~E2E(s, r, d)},
                   LAMBDA d : r.dmds[d].routed <=> IgpCost(s, s.dmds[d].src, s.dmds[d].dst) < INF)
       /\ CheckAll("equal shares", {d \in D : E2E(s, r, d)},
                   LAMBDA d : \A e \in Range1(r.dmds[d].det) :
                      Near(e.traf, (100 * s.dmds[d].traf) \div Len(r.dmds[d].paths), 1))
       /\ CheckAll("effective metric", L, LAMBDA l : r.lsps[l].em = EffMetric(s, r, l)))
  /\ On("P10",
       LET S == {d \in D : ~E2E(s, r, d)} IN
       /\ CheckAll("shortcuts", S, LAMBDA d : RidesOk(s, r, d))
       /\ LET fl == Flows(s, r) IN
          /\ CheckAll("fully delivered", S \cap RoutedDmds(s, r), LAMBDA d : NodeFlowOk(s, fl, d))
          /\ CheckAll("carried on the interfaces", Up(s), LAMBDA i : LoadOk(s, r, fl, i)))
  /\ On("P11", CheckAll("path detail", D, LAMBDA d : DetailOk(s, r, d)))

(*************************** one step of a history ***************************)
Step(n) == Traces[tid].steps[n]

\* What a property depends on is what the caller configured, before a simulation as after it:
\* the fields of each kind of object that simulating must not touch.
None == [nodes |-> {}, ifs |-> {}, dmds |-> {}, lsps |-> {}]
Inputs ==
  CASE Prop = "P03" -> [None EXCEPT !.ifs = {"cost"}, !.dmds = {"src", "dst"}]
    [] Prop \in {"P04", "P11"} -> [None EXCEPT !.dmds = {"src", "dst", "traf"}]
    [] Prop = "P05" -> [None EXCEPT !.ifs = {"cap"}, !.dmds = {"src", "dst", "traf"}]
    [] Prop = "P06" -> [None EXCEPT !.ifs = {"cost", "cap", "rsvp", "pct"}, !.lsps = {"src", "dst"}]
    [] Prop = "P07" -> [None EXCEPT !.ifs = {"cap", "rsvp", "pct"}]
    [] Prop = "P08" -> [None EXCEPT !.dmds = {"src", "dst", "traf"}, !.lsps = {"src", "dst", "cfg"}]
    [] Prop = "P09" -> [None EXCEPT !.ifs = {"cost"}, !.lsps = {"src", "dst", "mm"}]
    [] Prop = "P10" -> [None EXCEPT !.nodes = {"sc"}, !.ifs = {"cost"}, !.lsps = {"src", "dst", "mm"}]
    [] OTHER -> None
Touched(f, g, F) ==
  IF F = {} THEN {}
  ELSE {x \in DOMAIN f \cup DOMAIN g :
          ~(x \in DOMAIN f /\ x \in DOMAIN g /\ \A a \in F : f[x][a] = g[x][a])}
TouchedInputs(s, t) ==
  Touched(s.nodes, t.nodes, Inputs.nodes) \cup Touched(s.ifs, t.ifs, Inputs.ifs)
  \cup Touched(s.dmds, t.dmds, Inputs.dmds) \cup Touched(s.lsps, t.lsps, Inputs.lsps)

CheckStep(e, s0) ==
  LET ev == e.ev
      want == Apply(st, ev)
      ob == Observed(Cfg(e.cfg), want.st)
      okobs == e.out = "ok"
  IN
  /\ On("P01",
       /\ Check("circuit ends agree", CircuitsAgree(ob), ev)
       /\ Check("interfaces on failed nodes are failed", NodeDownIfsDown(ob), ev)
       /\ Check("members of failed groups are failed", GroupDownMembersDown(ob), ev)
       /\ Check("both ends are in the same groups", GroupsOnBothEnds(ob), ev))
  /\ On("P02",
       ev.op \in FailureOps =>
         /\ Check("outcome", want.ok = okobs, <<ev, e.out>>)
         /\ Check("exactly the right objects changed", want.st = ob, <<ev, Diff(want.st, ob)>>))
  /\ Prop \in {"P20", "P15"} =>
         /\ Check("outcome", ev.op = "sim" \/ want.ok = okobs, <<ev, e.out>>)
         /\ Check("exactly the object concerned changed", want.st = ob, <<ev, Diff(want.st, ob)>>)
         /\ Has(e, "same") => Check("a refused value changes nothing", e.same, ev)
  /\ On("P09", ev.op \in {"set_metric", "sim"} =>
         /\ Check("metric call", want.ok = okobs, <<ev, e.out>>)
         /\ CheckAll("manual metric", DOMAIN want.st.lsps,
                     LAMBDA l : l \in DOMAIN ob.lsps /\ ob.lsps[l].mm = want.st.lsps[l].mm))
  /\ Has(e, "errs") => Fail("the model can be read", e.errs)
  /\ (ev.op = "sim" /\ Prop \notin {"P01", "P02", "P13", "P20"}) => Check("simulation of a valid model succeeds", okobs, e.out)
  /\ (ev.op = "sim" /\ okobs) =>
       LET touched == TouchedInputs(want.st, ob) IN
       Check("simulating leaves what was configured", touched = {}, touched)
  /\ (ev.op = "sim" /\ okobs) => On("P12",
       Check("simulating changes no configuration", want.st = ob, Diff(want.st, ob)))
  /\ (Has(e, "r") /\ okobs) => CheckResult(ob, e.r)
  /\ (Has(e, "fresh") /\ okobs) => On("P12",
       /\ Check("fresh model simulates", e.fresh.out = "ok", e.fresh.out)
       /\ e.fresh.out = "ok" =>
         LET r == e.r
             f == e.fresh.r
         IN /\ Check("same configuration", Cfg(e.fresh.cfg) = ob, Diff(Cfg(e.fresh.cfg), ob))
            /\ Check("same IGP routes as a fresh model", SameIgp(ob, r, f), <<r.dmds, f.dmds>>)
            /\ LspsDetermined(ob) =>
                 Check("same result as a fresh model", SameAll(ob, r, f), <<r, f>>)
            /\ (~LspsDetermined(ob)) =>
                 Check("result allowed as that of a fresh model", Allowed(ob, r) \/ ~Allowed(ob, f), r))
  /\ (Has(e, "again") /\ okobs) => On("P12",
       LET r == e.r
           f == e.again
       IN /\ Check("same IGP routes when repeated", SameIgp(ob, r, f), <<r.dmds, f.dmds>>)
          /\ LspsDetermined(ob) =>
               Check("same result when repeated", SameAll(ob, r, f), <<r, f>>)
          /\ (~LspsDetermined(ob)) =>
               Check("repeated result allowed as the first", Allowed(ob, f) \/ ~Allowed(ob, r), f))
  /\ Has(e, "q") => On("P13",
       \A k \in DOMAIN e.q :
          Check("query answer", QueryOk(ob, e.rable, e.q[k]), e.q[k])
          /\ Check("query changes nothing", e.q[k].before = e.q[k].after, e.q[k]))
  /\ (Has(e, "rep") /\ okobs) => On("P14",
       LET bad == BadReports(ob, e.r, e.rep) IN Check("report", bad = {}, bad))
  /\ Has(e, "disp") => On("P21",
       LET bad == BadDisplays(ob, e.disp) IN Check("display", bad = {}, bad))
  /\ Has(e, "pure") => On("P21",
       \A k \in DOMAIN e.pure : Check("reading changes nothing", e.pure[k].same, e.pure[k].read))
  /\ Has(e, "look") => On("P20",
       LET bad == BadLookups(ob, e.look) IN Check("lookup", bad = {}, bad))
=============================================================================
