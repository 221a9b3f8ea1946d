-------------------------------- MODULE Route --------------------------------
(***************************************************************************)
(* The simulation: LSP signaling, demand routing and the load that results. *)
(*                                                                         *)
(* A simulation of state st is nondeterministic (signaling order, random   *)
(* ties), so it is specified as the set of allowed results.  A result r is *)
(*   ifs  : [interface -> [traf, util, resv, rable]]                       *)
(*   dmds : [demand -> [routed, paths, hasdet, det]]                       *)
(*   lsps : [LSP -> [routed, path, cost, base, resv, setup, em]]           *)
(* paths is a set of sequences of items (interfaces and LSPs); bandwidth   *)
(* and traffic of results are in thousandths, of states in tenths.         *)
(***************************************************************************)
EXTENDS Topo

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

SumOver(S, op(_)) == FoldLeft(LAMBDA acc, x : acc + op(x), 0, SetToSeq(S))
SumSeq(s, op(_)) == FoldLeft(LAMBDA acc, x : acc + op(x), 0, s)

Up(st) == {i \in Ifs(st) : ~st.ifs[i].failed}
UpRsvp(st) == {i \in Ifs(st) : ~st.ifs[i].failed /\ st.ifs[i].rsvp}

(*************************** lowest cost paths ***************************)
\* D[n]: lowest weight w from n to dst over the edges E (INF: none)
DistTo(st, E, dst, w(_)) ==
  LET N == Nodes(st)
      out == TLCEval([n \in N |-> {i \in E : st.ifs[i].node = n}])
      relax(f) == TLCEval([n \in N |->
          IF n = dst THEN 0
          ELSE MinOf({f[n]} \cup {IF f[st.ifs[i].remote] >= INF THEN INF
                                  ELSE w(i) + f[st.ifs[i].remote] : i \in out[n]})])
      RECURSIVE iter(_, _)
      iter(f, k) == LET g == relax(f) IN IF k = 0 \/ g = f THEN g ELSE iter(g, k - 1)
  IN iter([n \in N |-> IF n = dst THEN 0 ELSE INF], Cardinality(N))

CostOf(st, i) == st.ifs[i].cost
LexOf(st, i)  == st.ifs[i].cost * 32 + 1          \* cost, then hops (paths have fewer than 32)

\* all paths of lowest weight, as sequences of interfaces
BestPaths(st, E, src, dst, w(_)) ==
  LET D == DistTo(st, E, dst, w)
      nh == TLCEval([n \in Nodes(st) |->
               {i \in E : /\ st.ifs[i].node = n /\ n # dst /\ D[n] < INF
                          /\ D[st.ifs[i].remote] < INF
                          /\ D[n] = w(i) + D[st.ifs[i].remote]}])
      RECURSIVE from(_)
      from(n) == IF n = dst THEN {<<>>}
                 ELSE UNION {{<<i>> \o p : p \in from(st.ifs[i].remote)} : i \in nh[n]}
  IN from(src)

\* all loop-free paths of at most maxhops hops
SimplePaths(st, E, src, dst, maxhops) ==
  LET out == TLCEval([n \in Nodes(st) |-> {i \in E : st.ifs[i].node = n}])
      RECURSIVE from(_, _, _)
      from(n, seen, k) ==
        IF n = dst THEN {<<>>}
        ELSE IF k = 0 THEN {}
        ELSE UNION {{<<i>> \o p : p \in from(st.ifs[i].remote, seen \cup {st.ifs[i].remote}, k - 1)} :
                    i \in {j \in out[n] : st.ifs[j].remote \notin seen}}
  IN IF src = dst THEN {} ELSE from(src, {src}, maxhops)

PathCost(st, p) == SumSeq(p, LAMBDA i : st.ifs[i].cost)
PathWeight(p, w(_)) == SumSeq(p, w)

\* a path from src to dst that repeats no node
IsPath(st, p, src, dst) ==
  /\ Len(p) > 0
  /\ \A k \in DOMAIN p : p[k] \in Ifs(st)
  /\ st.ifs[p[1]].node = src
  /\ st.ifs[p[Len(p)]].remote = dst
  /\ \A k \in 1..(Len(p) - 1) : st.ifs[p[k]].remote = st.ifs[p[k + 1]].node
  /\ Cardinality({st.ifs[p[k]].node : k \in DOMAIN p}) = Len(p)
  /\ \A k \in DOMAIN p : st.ifs[p[k]].node # dst

IgpPaths(st, src, dst) ==
  BestPaths(st, Up(st), src, dst, LAMBDA i : CostOf(st, i))
IgpCost(st, src, dst) ==
  DistTo(st, Up(st), dst, LAMBDA i : CostOf(st, i))[src]

(*************************** LSP signaling ***************************)
\* LSPs that share source and destination; demands that can ride them
Groups(st) == {<<st.lsps[l].src, st.lsps[l].dst>> : l \in DOMAIN st.lsps}
LspsOf(st, g) == {l \in DOMAIN st.lsps : <<st.lsps[l].src, st.lsps[l].dst>> = g}
DmdsOf(st, g) == {d \in DOMAIN st.dmds : <<st.dmds[d].src, st.dmds[d].dst>> = g}
\* traffic of a group in thousandths
GroupTraffic(st, g) == 100 * SumOver(DmdsOf(st, g), LAMBDA d : st.dmds[d].traf)
Share(st, g, k) == GroupTraffic(st, g) \div k

\* reservable share of the capacity in thousandths (caps are multiples of 1/10 unit * pct)
Limit(st, i) == st.ifs[i].cap * st.ifs[i].pct

RoutedOf(st, r, g) == {l \in LspsOf(st, g) : r.lsps[l].routed}
OnPath(r, l, i) == r.lsps[l].routed /\ \E k \in DOMAIN r.lsps[l].path : r.lsps[l].path[k] = i
\* reservations that the LSPs of set L hold in result r
Held(st, r, L) ==
  TLCEval([i \in Ifs(st) |->
      SumOver({l \in L : OnPath(r, l, i)}, LAMBDA l : r.lsps[l].resv)])

Reserve(f, p, bw) == TLCEval([i \in DOMAIN f |-> IF \E k \in DOMAIN p : p[k] = i THEN f[i] + bw ELSE f[i]])

InitialBw(st, l, g) ==
  IF st.lsps[l].cfg >= 0 THEN 100 * st.lsps[l].cfg ELSE Share(st, g, Cardinality(LspsOf(st, g)))
Resignals(st, r, g) == LET R == RoutedOf(st, r, g) IN R # {} /\ R # LspsOf(st, g)

Fits(st, resv, bw) == {i \in UpRsvp(st) : Limit(st, i) - resv[i] >= bw}
\* interfaces on which l, holding bw0 on path p0, could hold bw instead
FitsAgain(st, resv, bw, p0, bw0) ==
  {i \in UpRsvp(st) :
     Limit(st, i) - resv[i] + (IF \E k \in DOMAIN p0 : p0[k] = i THEN bw0 ELSE 0) >= bw}

\* what is left on path p (own: bandwidth the LSP already holds on path p0)
Headroom(st, resv, p, p0, own) ==
  MinOf({Limit(st, p[k]) - resv[p[k]] + (IF \E j \in DOMAIN p0 : p0[j] = p[k] THEN own ELSE 0) :
         k \in DOMAIN p})

\* Is p allowed as the path over edges E?  best = FALSE: any path will do
PathOk(st, E, p, src, dst, w(_), best) ==
  /\ IsPath(st, p, src, dst)
  /\ \A k \in DOMAIN p : p[k] \in E
  /\ best => PathWeight(p, w) = DistTo(st, E, dst, w)[src]

HasPath(st, E, src, dst) == DistTo(st, E, dst, LAMBDA i : 1)[src] < INF

(***************************************************************************)
(* Signal the LSPs of group g, one after another in some order, starting   *)
(* from reservations resv0: can that give what result r shows for the      *)
(* group?  First every LSP signals for its configured bandwidth or its     *)
(* share of the group's traffic.  If only some could be routed, each of    *)
(* those with automatic bandwidth then signals again, in some order, for   *)
(* its share of the traffic over the routed ones.  best: paths must be the *)
(* best ones (P06), or just have the bandwidth (P08).  The paths that      *)
(* re-signaled LSPs took first are not in the result; any that works will  *)
(* do.                                                                     *)
(***************************************************************************)
GroupExplained(st, r, g, resv0, best) ==
  LET src == g[1]
      dst == g[2]
      again == Resignals(st, r, g)
      bw1(l) == InitialBw(st, l, g)
      bw2 == Share(st, g, Cardinality(RoutedOf(st, r, g)))
      obs(l) == r.lsps[l]
      lex(i) == LexOf(st, i)
      cost(i) == CostOf(st, i)
      RECURSIVE second(_, _, _)
      second(S, resv, init) ==
        S = {} \/ \E l \in S :
          LET p0 == init[l].p
              E == TLCEval(FitsAgain(st, resv, bw2, p0, bw1(l)))
          IN IF HasPath(st, E, src, dst)
             THEN /\ obs(l).resv = bw2
                  /\ PathOk(st, E, obs(l).path, src, dst, cost, best)
                  /\ best => obs(l).base = Headroom(st, resv, obs(l).path, p0, bw1(l))
                  /\ second(S \ {l}, Reserve(Reserve(resv, p0, -bw1(l)), obs(l).path, bw2), init)
             ELSE /\ obs(l).path = p0
                  /\ obs(l).resv = bw1(l)
                  /\ best => obs(l).base = init[l].head
                  /\ second(S \ {l}, resv, init)
      RECURSIVE first(_, _, _)
      first(S, resv, init) ==
        IF S = {} THEN (again => second(DOMAIN init, resv, init))
        ELSE \E l \in S :
          LET E == TLCEval(Fits(st, resv, bw1(l)))
          IN IF ~obs(l).routed
             THEN ~HasPath(st, E, src, dst) /\ first(S \ {l}, resv, init)
             ELSE IF again /\ st.lsps[l].cfg < 0
             THEN \E p \in (IF best THEN BestPaths(st, E, src, dst, lex)
                            ELSE SimplePaths(st, E, src, dst, Cardinality(Nodes(st)))) :
                     first(S \ {l}, Reserve(resv, p, bw1(l)),
                           (l :> [p |-> p, head |-> Headroom(st, resv, p, <<>>, 0)]) @@ init)
             ELSE /\ obs(l).resv = bw1(l)
                  /\ PathOk(st, E, obs(l).path, src, dst, lex, best)
                  /\ best => obs(l).base = Headroom(st, resv, obs(l).path, <<>>, 0)
                  /\ first(S \ {l}, Reserve(resv, obs(l).path, bw1(l)), init)
  IN first(LspsOf(st, g), resv0, <<>>)

\* Is there an order of the groups, and of the LSPs in each, that gives result r?
Explained(st, r, best) ==
  LET all == Groups(st)
      lspsIn(S) == UNION {LspsOf(st, g) : g \in S}
      RECURSIVE ex(_)
      ex(S) == \/ S = all
               \/ LET resv == Held(st, r, lspsIn(S)) IN
                  \E g \in all \ S :
                     /\ GroupExplained(st, r, g, resv, best)
                     /\ ex(S \cup {g})
  IN ex({})

(***************************************************************************)
(* Is signaling free of ties and contention?  Then its result is unique:   *)
(* every LSP takes its only best path, or none.                            *)
(***************************************************************************)
MaxBw(st, l) == InitialBw(st, l, <<st.lsps[l].src, st.lsps[l].dst>>)
AloneFits(st, bw) == {i \in UpRsvp(st) : Limit(st, i) >= bw}
AlonePaths(st, l) ==
  BestPaths(st, AloneFits(st, MaxBw(st, l)), st.lsps[l].src, st.lsps[l].dst, LAMBDA i : LexOf(st, i))
SlackBw == 300      \* margin for bandwidths that are not whole thousandths
LspsDetermined(st) ==
  LET L == DOMAIN st.lsps
      P == TLCEval([l \in L |-> AlonePaths(st, l)])
  IN /\ \A l \in L : Cardinality(P[l]) <= 1
     /\ \A l \in L : AloneFits(st, MaxBw(st, l) + SlackBw) = AloneFits(st, MaxBw(st, l) - SlackBw)
     /\ \A i \in UpRsvp(st) :
          SumOver({l \in L : \E p \in P[l] : \E k \in DOMAIN p : p[k] = i},
                  LAMBDA l : MaxBw(st, l) + SlackBw) <= Limit(st, i)
     /\ \A g \in Groups(st) :
          LET R == {l \in LspsOf(st, g) : P[l] # {}} IN
          R = {} \/ R = LspsOf(st, g) \/ \A l \in R : st.lsps[l].cfg >= 0

(*************************** metrics and steering ***************************)
RoutedLsps(st, r) == {l \in DOMAIN st.lsps : r.lsps[l].routed}
Metric(st, l) ==
  IF st.lsps[l].mm > 0 THEN st.lsps[l].mm ELSE IgpCost(st, st.lsps[l].src, st.lsps[l].dst)
\* the effective metric, -1 if unrouted without a manual metric
EffMetric(st, r, l) ==
  IF st.lsps[l].mm > 0 THEN st.lsps[l].mm
  ELSE IF ~r.lsps[l].routed THEN -1
  ELSE IgpCost(st, st.lsps[l].src, st.lsps[l].dst)
\* the routed LSPs from src to dst with the lowest effective metric
Lowest(st, r, src, dst) ==
  LET R == {l \in LspsOf(st, <<src, dst>>) : r.lsps[l].routed}
      m == TLCEval([l \in R |-> Metric(st, l)])
  IN {l \in R : \A k \in R : m[l] <= m[k]}

(*************************** IGP shortcuts ***************************)
IsLsp(st, x) == x \in DOMAIN st.lsps
Tail2(st, x) == IF IsLsp(st, x) THEN st.lsps[x].src ELSE st.ifs[x].node
Head2(st, x) == IF IsLsp(st, x) THEN st.lsps[x].dst ELSE st.ifs[x].remote
ItemMetric(st, x) == IF IsLsp(st, x) THEN Metric(st, x) ELSE st.ifs[x].cost

ShortcutPaths(st, r, src, dst) ==
  LET D == DistTo(st, Up(st), dst, LAMBDA i : CostOf(st, i))
      nh == TLCEval([n \in Nodes(st) |->
               {i \in Up(st) : /\ st.ifs[i].node = n /\ n # dst /\ D[n] < INF
                               /\ D[st.ifs[i].remote] < INF
                               /\ D[n] = st.ifs[i].cost + D[st.ifs[i].remote]}])
      nexts(n) == {st.ifs[i].remote : i \in nh[n]}
      \* node sequences after n on lowest cost paths to dst
      RECURSIVE suffixes(_)
      suffixes(n) == IF n = dst THEN {<<>>}
                     ELSE UNION {{<<m>> \o q : q \in suffixes(m)} : m \in nexts(n)}
      \* LSPs from n to the furthest node of q that has any
      furthest(n, q) ==
        LET K == {k \in DOMAIN q : Lowest(st, r, n, q[k]) # {}} IN
        IF ~st.nodes[n].sc \/ K = {} THEN {}
        ELSE Lowest(st, r, n, q[CHOOSE k \in K : \A j \in K : j <= k])
      hop(n, q) == LET f == furthest(n, q) IN
                   IF f # {} THEN f ELSE {i \in nh[n] : st.ifs[i].remote = q[1]}
      items == TLCEval([n \in Nodes(st) |->
                 IF n = dst \/ D[n] >= INF THEN {} ELSE UNION {hop(n, q) : q \in suffixes(n)}])
      RECURSIVE from(_)
      from(n) == IF n = dst THEN {<<>>}
                 ELSE UNION {{<<x>> \o p : p \in from(Head2(st, x))} : x \in items[n]}
      all == TLCEval(from(src))
      w(p) == SumSeq(p, LAMBDA x : ItemMetric(st, x))
  IN IF D[src] >= INF THEN {}
     ELSE {p \in all : \A q \in all : w(p) <= w(q)}

\* what the demands from src to dst ride
Rides(st, r, src, dst) ==
  LET low == Lowest(st, r, src, dst) IN
  IF low # {} THEN {<<l>> : l \in low}
  ELSE IF st.kind = "flex" /\ \E n \in Nodes(st) : st.nodes[n].sc
       THEN ShortcutPaths(st, r, src, dst)
       ELSE IgpPaths(st, src, dst)

(*************************** load ***************************)
IsItem(st, x) == x \in Ifs(st) \/ x \in DOMAIN st.lsps
ItemsOf(P) == UNION {Range1(p) : p \in P}
PathStarts(P) == UNION {{SubSeq(p, 1, k) : k \in DOMAIN p} : p \in P}
\* next hops used at each node by the paths P
NextHops(st, P) ==
  LET I == ItemsOf(P) IN
  TLCEval([n \in Nodes(st) |-> {x \in I : Tail2(st, x) = n}])
\* how often traffic was split when it leaves on the last item of q
Splits(st, nh, q) == FoldLeft(LAMBDA acc, x : acc * Cardinality(nh[Tail2(st, x)]), 1, q)
\* traffic t (tenths) put on each item by even splitting at every node, in millionths
FlowMicro(st, P, t) ==
  LET nh == NextHops(st, P)
      Q == TLCEval({<<q[Len(q)], Splits(st, nh, q), q>> : q \in PathStarts(P)})
  IN TLCEval([x \in ItemsOf(P) |->
        SumOver({z \in Q : z[1] = x}, LAMBDA z : (t * 100000) \div z[2])])

\* interfaces under an item
Under(st, r, x) == IF IsLsp(st, x) THEN Range1(r.lsps[x].path) ELSE {x}
PathsOf(r, d) == Range1(r.dmds[d].paths)
RoutedDmds(st, r) == {d \in DOMAIN st.dmds : r.dmds[d].routed}
\* [demand -> [item -> thousandths]]
Flows(st, r) ==
  TLCEval([d \in RoutedDmds(st, r) |->
     LET f == FlowMicro(st, PathsOf(r, d), st.dmds[d].traf)
     IN TLCEval([x \in DOMAIN f |-> f[x] \div 1000])])
\* demands' items that load interface i
Loads(st, r, fl, i) ==
  {<<d, x>> \in UNION {{<<d, x>> : x \in DOMAIN fl[d]} : d \in DOMAIN fl} : i \in Under(st, r, x)}
=============================================================================
