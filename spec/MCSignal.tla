------------------------------- MODULE MCSignal -------------------------------
(***************************************************************************)
(* LSP signaling as a transition system: the groups of parallel LSPs are   *)
(* taken in any order, the LSPs of a group in any order, and every tie     *)
(* between paths is broken in any way.  If only some LSPs of a group could *)
(* be routed, those with automatic bandwidth signal again, in any order,   *)
(* for their share over the routed ones.                                   *)
(*                                                                         *)
(* TLC explores all orders and ties on every configuration of small        *)
(* networks, checks the reservation laws in every state, and that every    *)
(* result that can be reached is one that Explained (the oracle for the    *)
(* real code, see Route) accepts.  Every configuration is also simulated   *)
(* several times by the real code.                                         *)
(***************************************************************************)
EXTENDS Nets

CONSTANTS Tops, Kinds, Caps, Traffic, Fixed, MaxGroup, Others
VARIABLES c,      \* the configuration
          todo,   \* groups still to come
          g,      \* the group being signaled, <<>> for none
          phase,  \* 1: first signaling, 2: again
          left,   \* LSPs of the group still to be signaled in this phase
          r       \* [LSP -> [routed, path, base, resv]]: what has been signaled
vars == <<c, todo, g, phase, left, r>>

(*************************** configurations ***************************)
E4(a, b, cost, cap) == [a |-> a, b |-> b, cost |-> cost, back |-> cost, cap |-> cap, rsvp |-> TRUE, failed |-> FALSE]
\* two or three ways from A to B of capacities x, y, z
Net(t, x, y, z) ==
  CASE t = "two"   -> [N |-> {"A", "B", "C"}, par |-> FALSE,
                       C |-> <<E4("A", "B", 1, x), E4("A", "C", 1, y), E4("C", "B", 1, z)>>]
    [] t = "equal" -> [N |-> {"A", "B", "C", "D"}, par |-> FALSE,
                       C |-> <<E4("A", "C", 1, x), E4("C", "B", 1, z), E4("A", "D", 1, y), E4("D", "B", 1, z)>>]
    [] t = "hops"  -> [N |-> {"A", "B", "C"}, par |-> FALSE,
                       C |-> <<E4("A", "B", 2, x), E4("A", "C", 1, y), E4("C", "B", 1, z)>>]
    [] t = "thick" -> [N |-> {"A", "B"}, par |-> TRUE,
                       C |-> <<E4("A", "B", 1, x), E4("B", "A", 1, y), E4("A", "B", 2, z)>>]
    \* one way is better than the two others
    [] t = "three" -> [N |-> {"A", "B", "D", "E"}, par |-> FALSE,
                       C |-> <<E4("A", "B", 1, x), E4("A", "D", 1, y), E4("D", "B", 1, y), E4("A", "E", 1, z), E4("E", "B", 1, z)>>]
    [] t = "many"  -> [N |-> {"A", "B"}, par |-> TRUE,
                       C |-> <<E4("A", "B", 1, x), E4("B", "A", 2, y), E4("A", "B", 2, z)>>]
    \* two of the lowest-cost ways have fewest hops, one has more
    [] t = "mixed" -> [N |-> {"A", "B", "C"}, par |-> TRUE,
                       C |-> <<E4("A", "B", 2, x), E4("B", "A", 2, y), E4("A", "C", 1, z), E4("C", "B", 1, z)>>]
    [] t = "six"   -> [N |-> {"A", "B", "D", "E", "F", "G"}, par |-> FALSE,
                       C |-> <<E4("A", "D", 2, x), E4("D", "B", 1, x), E4("A", "E", 2, y), E4("E", "B", 1, y),
                               E4("A", "F", 1, z), E4("F", "G", 1, z), E4("G", "B", 1, z)>>]

\* bandwidths of a group of n LSPs, in ascending order: -1 automatic
Bws(n) == {b \in [1..n -> {-1} \cup Fixed] : \A i \in 1..(n - 1) : b[i] <= b[i + 1]}
LspList(b, s, d) == [i \in DOMAIN b |-> [s |-> s, d |-> d, cfg |-> b[i], mm |-> 0]]
Configs ==
  UNION {UNION {UNION {
    {Config(k, net.N, net.C,
            <<[s |-> "A", d |-> "B", traf |-> t]>> \o (IF o = "auto" THEN <<[s |-> "A", d |-> "C", traf |-> 120]>> ELSE <<>>),
            LspList(b, "A", "B")
            \o (CASE o = "auto" -> <<[s |-> "A", d |-> "C", cfg |-> -1, mm |-> 0]>>
                  [] o = "fixed" -> <<[s |-> "A", d |-> "C", cfg |-> 100, mm |-> 0]>>
                  [] OTHER -> <<>>), {}) :
       b \in UNION {Bws(n) : n \in 1..MaxGroup}, t \in Traffic,
       o \in (IF "C" \in net.N THEN Others ELSE {"none"}), k \in (IF net.par THEN Kinds \cap {"flex"} ELSE Kinds)} :
    net \in {Net(tp, x, y, z) : x \in Caps, y \in Caps, z \in Caps}} : tp \in Tops} : one \in {1}}

Resv(i) == SumOver({l \in DOMAIN r : r[l].routed /\ \E k \in DOMAIN r[l].path : r[l].path[k] = i}, LAMBDA l : r[l].resv)
AllResv == TLCEval([i \in Ifs(c) |-> Resv(i)])
Lex(i) == LexOf(c, i)
Cst(i) == CostOf(c, i)

(*************************** transitions ***************************)
Init ==
  /\ c \in Configs
  /\ todo = Groups(c) /\ g = <<>> /\ phase = 0 /\ left = {} /\ r = <<>>

Begin ==
  /\ g = <<>>
  /\ \E x \in todo :
       /\ g' = x /\ todo' = todo \ {x}
       /\ phase' = 1 /\ left' = LspsOf(c, x)
  /\ UNCHANGED <<c, r>>

First ==
  /\ phase = 1 /\ left # {}
  /\ \E l \in left :
       LET bw == InitialBw(c, l, g)
           resv == AllResv
           P == BestPaths(c, Fits(c, resv, bw), g[1], g[2], Lex)
       IN /\ left' = left \ {l}
          /\ IF P = {} THEN r' = Put(r, l, [routed |-> FALSE, path |-> <<>>, base |-> -1, resv |-> -1])
             ELSE \E p \in P : r' = Put(r, l, [routed |-> TRUE, path |-> p, base |-> Headroom(c, resv, p, <<>>, 0),
                                               resv |-> bw])
  /\ UNCHANGED <<c, todo, g, phase>>

RoutedG == {l \in LspsOf(c, g) : r[l].routed}
Turn ==
  /\ phase = 1 /\ left = {}
  /\ IF RoutedG # {} /\ RoutedG # LspsOf(c, g)
     THEN phase' = 2 /\ left' = {l \in RoutedG : c.lsps[l].cfg < 0} /\ g' = g
     ELSE phase' = 0 /\ left' = {} /\ g' = <<>>
  /\ UNCHANGED <<c, todo, r>>

Again ==
  /\ phase = 2 /\ left # {}
  /\ \E l \in left :
     LET bw == Share(c, g, Cardinality(RoutedG))
         resv == AllResv
         P == BestPaths(c, FitsAgain(c, resv, bw, r[l].path, r[l].resv), g[1], g[2], Cst)
     IN /\ left' = left \ {l}
        /\ IF P = {} THEN r' = r
           ELSE \E p \in P : r' = Put(r, l, [routed |-> TRUE, path |-> p, resv |-> bw,
                                             base |-> Headroom(c, resv, p, r[l].path, r[l].resv)])
  /\ UNCHANGED <<c, todo, g, phase>>
Done2 == phase = 2 /\ left = {} /\ phase' = 0 /\ g' = <<>> /\ UNCHANGED <<c, todo, left, r>>

Next == Begin \/ First \/ Turn \/ Again \/ Done2
Spec == Init /\ [][Next]_vars

(*************************** properties ***************************)
Final == g = <<>> /\ todo = {}
\* P07: in every state, reservations fit and are held by working RSVP interfaces only
Fit == \A i \in Ifs(c) : Resv(i) <= (IF i \in UpRsvp(c) THEN Limit(c, i) ELSE 0)
\* P06: paths are paths
Paths == \A l \in DOMAIN r : r[l].routed => IsPath(c, r[l].path, c.lsps[l].src, c.lsps[l].dst) /\ r[l].base >= r[l].resv
\* P08: what a routed LSP reserves
Shares ==
  Final => \A l \in DOMAIN r : r[l].routed =>
    LET gg == <<c.lsps[l].src, c.lsps[l].dst>>
        n == Cardinality({k \in LspsOf(c, gg) : r[k].routed})
    IN \/ r[l].resv = InitialBw(c, l, gg)
       \/ c.lsps[l].cfg < 0 /\ n < Cardinality(LspsOf(c, gg)) /\ r[l].resv = Share(c, gg, n)
\* everything reachable is accepted by the oracle for the real code
Accepted == Final => Explained(c, [lsps |-> r], TRUE) /\ Explained(c, [lsps |-> r], FALSE)
\* where the oracle says that there is one result, there is one
Unique ==
  Final /\ LspsDetermined(c) =>
    \A l \in DOMAIN r : LET P == AlonePaths(c, l) IN
      /\ r[l].routed <=> P # {}
      /\ r[l].routed => r[l].path \in P
Out == phase = 0 /\ r = <<>> => Emit("CASE", c)
=============================================================================
