-------------------------------- MODULE MCLoad --------------------------------
(***************************************************************************)
(* A base file and every sequence of at most Depth edits of it.  Every     *)
(* file reached is checked against laws of Load and printed to be loaded   *)
(* by the real code.                                                       *)
(***************************************************************************)
EXTENDS Load, Json

CONSTANTS Kinds, Depth
VARIABLES f, depth

I(k, a, b, n, c, cols) ==
  [cols |-> cols, node |-> a, remote |-> b, name |-> n, cost |-> 10, cap |-> 100,
   ckt |-> IF k = "perf" THEN "" ELSE c, rsvp |-> "False", pct |-> 50]
Base(k) ==
  LET r == IF k = "flex" THEN 6 ELSE 5 IN
  [kind |-> k,
   ifs |-> <<I(k, "A", "B", "ab", "1", r), I(k, "B", "A", "ba", "1", r + 1),
             I(k, "B", "C", "bc", "2", r + 2), I(k, "C", "B", "cb", "2", r + 2)>>,
   nodes |-> <<[cols |-> 3, name |-> "A", lon |-> 50, lat |-> -7, sc |-> "True"],
               [cols |-> 2, name |-> "B", lon |-> 4, lat |-> 9, sc |-> "True"]>>,
   dmds |-> <<[s |-> "A", d |-> "C", traf |-> 10, name |-> "d1"]>>,
   lsps |-> <<[cols |-> 5, s |-> "A", d |-> "C", name |-> "l1", cfg |-> 25, mm |-> 7],
              [cols |-> 3, s |-> "B", d |-> "C", name |-> "l1", cfg |-> 25, mm |-> 7]>>]

\* edits: [a file with one thing changed]
Row(g, k, col, v) == [g EXCEPT !.ifs[k][col] = v]
R(g) == Required(g)
Edits(g) ==
  {Row(g, k, "rsvp", v) : k \in {1, 3}, v \in {"", "True", "T", "true", "F", "false"}}
  \cup {Row(g, k, "cols", c) : k \in {1, 4}, c \in {3, R(g) - 1, R(g), R(g) + 1, R(g) + 2}}
  \cup {Row(g, k, "pct", v) : k \in {2, 3}, v \in {-1, 0, 80}}
  \cup {Row(g, k, "cap", 90) : k \in {1, 3}}
  \cup {Row(g, 2, "name", "ab"), Row(g, 2, "name", "bc"), Row(g, 4, "node", "D"), Row(g, 3, "remote", "D")}
  \cup (IF g.kind = "flex" THEN {Row(g, 2, "ckt", "2"), Row(g, 1, "ckt", "3")} ELSE {})
  \cup {[g EXCEPT !.ifs = @ \o <<[g.ifs[1] EXCEPT !.ckt = IF g.kind = "perf" THEN "" ELSE "9", !.cost = 77],
                                 [g.ifs[2] EXCEPT !.ckt = IF g.kind = "perf" THEN "" ELSE "9", !.cost = 78]>>],
        [g EXCEPT !.ifs = @ \o <<g.ifs[1]>>],
        [g EXCEPT !.ifs = @ \o <<I(g.kind, "A", "B", "ab2", "5", R(g)), I(g.kind, "B", "A", "ba2", "5", R(g))>>],
        [g EXCEPT !.ifs = @ \o <<I(g.kind, "A", "A", "aa", "6", R(g)), I(g.kind, "A", "A", "aa", "6", R(g))>>],
        [g EXCEPT !.ifs = Reverse(@)],
        [g EXCEPT !.nodes = SelectSeq(@, LAMBDA r : r.name # "Z")
                            \o <<[cols |-> 3, name |-> "Z", lon |-> 1, lat |-> 2, sc |-> ""]>>],
        [g EXCEPT !.nodes = <<>>],
        [g EXCEPT !.dmds = <<>>],
        [g EXCEPT !.lsps = <<>>],
        [g EXCEPT !.dmds = @ \o <<[s |-> "A", d |-> "C", traf |-> 55, name |-> "d1"]>>],
        [g EXCEPT !.dmds = @ \o <<[s |-> "C", d |-> "A", traf |-> 55, name |-> ""]>>],
        [g EXCEPT !.dmds = @ \o <<[s |-> "A", d |-> "Z", traf |-> 5, name |-> "dz"]>>],
        [g EXCEPT !.dmds = @ \o <<[s |-> "Z", d |-> "B", traf |-> 5, name |-> "dz"]>>],
        [g EXCEPT !.dmds = @ \o <<[s |-> "B", d |-> "B", traf |-> 5, name |-> "db"]>>],
        [g EXCEPT !.lsps = @ \o <<[cols |-> 3, s |-> "B", d |-> "B", name |-> "lb", cfg |-> 0, mm |-> 0]>>],
        [g EXCEPT !.lsps = @ \o <<[cols |-> 4, s |-> "A", d |-> "C", name |-> "l1", cfg |-> 60, mm |-> 3]>>],
        [g EXCEPT !.lsps = @ \o <<[cols |-> 4, s |-> "A", d |-> "C", name |-> "l2", cfg |-> -1, mm |-> 3]>>],
        [g EXCEPT !.lsps = @ \o <<[cols |-> 5, s |-> "Z", d |-> "C", name |-> "l2", cfg |-> 0, mm |-> 0]>>],
        [g EXCEPT !.lsps = @ \o <<[cols |-> 3, s |-> "C", d |-> "Z", name |-> "l2", cfg |-> 0, mm |-> 0]>>]}
  \cup {[g EXCEPT !.nodes = [k \in DOMAIN g.nodes |-> [g.nodes[k] EXCEPT !.cols = c]]] :
           c \in IF g.kind = "flex" THEN {1, 2, 3, 4} ELSE {1, 2, 3}}
  \cup (IF g.kind = "flex" THEN {[g EXCEPT !.nodes = [k \in DOMAIN g.nodes |-> [g.nodes[k] EXCEPT !.sc = v, !.cols = 4]]] :
           v \in {"", "False", "True"}} ELSE {})
  \cup {[g EXCEPT !.nodes = [k \in DOMAIN g.nodes |-> [g.nodes[k] EXCEPT ![c] = -1000]]] : c \in {"lon", "lat"}}

Init == depth = 0 /\ f \in {Base(k) : k \in Kinds}
Next == depth < Depth /\ depth' = depth + 1 /\ f' \in Edits(f)
Spec == Init /\ [][Next]_<<f, depth>>

Emit == PrintT("CASE " \o ToJson(f))
\* a loaded model mentions only its own nodes, and repeating the whole table changes nothing
Closed ==
  LET m == Load(f) IN m.ok =>
    /\ \A i \in Ifs(m.st) : {m.st.ifs[i].node, m.st.ifs[i].remote} \subseteq Nodes(m.st)
    /\ \A d \in DOMAIN m.st.dmds : {m.st.dmds[d].src, m.st.dmds[d].dst} \subseteq Nodes(m.st)
    /\ DOMAIN m.geo = Nodes(m.st)
Repeating ==
  LET m == Load(f) IN m.ok => Load([f EXCEPT !.dmds = @ \o f.dmds, !.lsps = @ \o f.lsps]) = m
=============================================================================
