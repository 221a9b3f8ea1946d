--------------------------------- MODULE Load ---------------------------------
(***************************************************************************)
(* Model files (P16).  A file is                                           *)
(*   [kind, ifs, nodes, dmds, lsps]: sequences of rows                     *)
(*   ifs  : [cols, node, remote, name, cost, cap, ckt, rsvp, pct]          *)
(*          cols: columns present;  rsvp: the text;  pct = -1: blank       *)
(*   nodes: [cols, name, lon, lat, sc]       -1000: blank;  sc: the text   *)
(*   dmds : [s, d, traf, name]               name "": blank                *)
(*   lsps : [cols, s, d, name, cfg, mm]      cfg = -1, mm = 0: blank       *)
(* Load(f) is [ok, st, geo]: refused, or the model described, with the     *)
(* latitude and longitude of its nodes.                                    *)
(***************************************************************************)
EXTENDS Topo

Required(f) == IF f.kind = "flex" THEN 6 ELSE 5
RsvpCol(f) == Required(f) + 1
PctCol(f)  == Required(f) + 2

RowKey(r) == IfId(r.node, r.name)
Firsts(rows, key(_)) ==
  {k \in DOMAIN rows : \A j \in 1..(k - 1) : key(rows[j]) # key(rows[k])}

Rsvp(f, r) == r.cols < RsvpCol(f) \/ r.rsvp \in {"", "True", "T", "true"}
Pct(f, r) == IF r.cols < PctCol(f) \/ r.pct = -1 THEN 100 ELSE r.pct

NodeNames(f) ==
  UNION {{f.ifs[k].node, f.ifs[k].remote} : k \in DOMAIN f.ifs} \cup {f.nodes[k].name : k \in DOMAIN f.nodes}
CktUses(f, c) == Cardinality({k \in DOMAIN f.ifs : f.ifs[k].cols >= 6 /\ f.ifs[k].ckt = c})

Refused(f) ==
  (IF \E k \in DOMAIN f.ifs : f.ifs[k].cols < Required(f) THEN {"interface columns"} ELSE {})
  \cup (IF f.kind = "flex" /\ \E k \in DOMAIN f.ifs : f.ifs[k].cols >= 6 /\ CktUses(f, f.ifs[k].ckt) # 2
        THEN {"circuit ids"} ELSE {})
  \cup (IF \E k \in DOMAIN f.ifs : f.ifs[k].node = f.ifs[k].remote THEN {"interface to its own node"} ELSE {})
  \cup (IF \E k \in DOMAIN f.dmds : ~({f.dmds[k].s, f.dmds[k].d} \subseteq NodeNames(f)) THEN {"demand nodes"} ELSE {})
  \cup (IF \E r \in Range(f.dmds) \cup Range(f.lsps) : r.s = r.d THEN {"demand or LSP to its own node"} ELSE {})
  \cup (IF \E k \in DOMAIN f.lsps : ~({f.lsps[k].s, f.lsps[k].d} \subseteq NodeNames(f)) THEN {"LSP nodes"} ELSE {})

NodeRow(f, n) == {k \in DOMAIN f.nodes : f.nodes[k].name = n}
Attr(f, n, col, get(_), none, default) ==
  IF NodeRow(f, n) = {} THEN default
  ELSE LET r == f.nodes[CHOOSE k \in NodeRow(f, n) : TRUE]
       IN IF r.cols < col \/ get(r) = none THEN default ELSE get(r)

DmdName(r) == IF r.name = "" THEN "none" ELSE r.name
Load(f) ==
  IF Refused(f) # {} THEN [ok |-> FALSE]
  ELSE
  LET ik == Firsts(f.ifs, LAMBDA r : RowKey(r))
      dk == Firsts(f.dmds, LAMBDA r : DmdId(r.s, r.d, DmdName(r)))
      lk == Firsts(f.lsps, LAMBDA r : LspId(r.s, r.d, r.name))
      theIf(i) == f.ifs[CHOOSE k \in ik : RowKey(f.ifs[k]) = i]
      theDmd(d) == f.dmds[CHOOSE k \in dk : DmdId(f.dmds[k].s, f.dmds[k].d, DmdName(f.dmds[k])) = d]
      theLsp(l) == f.lsps[CHOOSE k \in lk : LspId(f.lsps[k].s, f.lsps[k].d, f.lsps[k].name) = l]
  IN [ok |-> TRUE,
      st |->
       [kind  |-> f.kind,
        srlgs |-> <<>>,
        nodes |-> [n \in NodeNames(f) |->
                     [failed |-> FALSE, srlgs |-> {},
                      sc |-> Attr(f, n, 4, LAMBDA r : r.sc, "", "False") = "True",
                      at |-> ToString(Attr(f, n, 3, LAMBDA r : r.lat, -1000, 0)) \o "," \o ToString(Attr(f, n, 2, LAMBDA r : r.lon, -1000, 0))]],
        ifs   |-> [i \in {RowKey(f.ifs[k]) : k \in ik} |->
                     LET r == theIf(i) IN
                     [name |-> r.name, node |-> r.node, remote |-> r.remote,
                      ckt |-> IF f.kind = "perf" THEN "" ELSE r.ckt, cost |-> r.cost, cap |-> 10 * r.cap,
                      rsvp |-> Rsvp(f, r), pct |-> Pct(f, r), failed |-> FALSE, srlgs |-> {}]],
        dmds  |-> [d \in {DmdId(f.dmds[k].s, f.dmds[k].d, DmdName(f.dmds[k])) : k \in dk} |->
                     LET r == theDmd(d) IN [src |-> r.s, dst |-> r.d, name |-> DmdName(r), traf |-> 10 * r.traf]],
        lsps  |-> [l \in {LspId(f.lsps[k].s, f.lsps[k].d, f.lsps[k].name) : k \in lk} |->
                     LET r == theLsp(l) IN
                     [src |-> r.s, dst |-> r.d, name |-> r.name,
                      cfg |-> IF r.cols < 4 THEN -1 ELSE r.cfg, mm |-> IF r.cols < 5 THEN 0 ELSE r.mm]]],
      geo |-> [n \in NodeNames(f) |-> <<Attr(f, n, 3, LAMBDA r : r.lat, -1000, 0),
                                        Attr(f, n, 2, LAMBDA r : r.lon, -1000, 0)>>]]
=============================================================================
