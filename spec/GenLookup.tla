------------------------------ MODULE GenLookup -----------------------------
(* Clusters with brokers down, silent, closing or failing, bootstrap lists    *)
(* and lookups to try on the real code.                                       *)
EXTENDS Rand, Json, FiniteSets
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}
IdSets(x) == PickQ(<< <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3>>, <<1, 2, 3, 4>>, <<0, 1, 7>>, <<5>>, <<1, 2, 1001>> >>)
Mode(x) == PickQ(<<"up", "up", "up", "down", "down", "down", "silent", "closing", "mute", "drop", "drop", "empty", "nocoord">>)
Bad(x) == PickQ(<<"down", "down", "down", "silent", "closing", "mute", "drop", "drop", "empty", "nocoord">>)
TNames == <<"t1", "t2", "bad", "noleader">>
TopicsL == << [t |-> "t1", code |-> 0, pcode |-> 0], [t |-> "t2", code |-> 0, pcode |-> 0],
              [t |-> "bad", code |-> 29, pcode |-> 0], [t |-> "noleader", code |-> 0, pcode |-> 5] >>
Good2 == << [t |-> "t1", code |-> 0, pcode |-> 0], [t |-> "t2", code |-> 0, pcode |-> 0] >>

RECURSIVE Addrs(_, _)
Addrs(k, ids) == IF k = 0 THEN <<>> ELSE LET r == Addrs(k - 1, ids) IN LET x == PickQ(ids) IN r \o <<x>>
ModeStep(id) == [op |-> "mode", n |-> id, m |-> Mode(0)]
Boot(ids) == LET k == PickQ(<<1, 2, 2, 3, 4>>) IN [op |-> "boot", addrs |-> Addrs(k, ids), alias |-> Chance(25)]
Meta(x) == [op |-> "meta", topics |-> PickQ(<< <<"t1">>, <<"t1">>, <<"bad">>, <<"nosuch">>, <<"noleader">>, <<>>, <<"t1", "t2">> >>)]
Coord(x) == [op |-> "coord", g |-> PickQ(<<"g1", "g2", "g0">>)]
Get(ids) == [op |-> "get", id |-> IF Chance(8) THEN 99 ELSE PickQ(ids), fresh |-> Chance(25)]
Look(ids) == LET k == Pick(1..13) IN IF k = 13 THEN [op |-> "any"] ELSE IF k <= 4 THEN Meta(0) ELSE IF k <= 7 THEN Coord(0) ELSE IF k <= 9 THEN [op |-> "ctl"] ELSE Get(ids)
Step(ids) ==
  LET k == Pick(1..100) IN
  IF k <= 22 THEN ModeStep(PickQ(ids))
  ELSE IF k <= 30 THEN [op |-> "cut", n |-> PickQ(ids), rst |-> Chance(50)]
  ELSE IF k <= 37 THEN [op |-> "list", nodes |-> ids]
  ELSE IF k <= 40 THEN Boot(ids)
  ELSE IF k <= 44 THEN [op |-> "setctl", n |-> PickQ(ids)]
  ELSE IF k <= 53 THEN [op |-> "par", ops |-> <<Look(ids), Look(ids)>>]
  ELSE Look(ids)
RECURSIVE Steps(_, _)
Steps(k, ids) == IF k = 0 THEN <<>> ELSE LET r == Steps(k - 1, ids) IN LET x == Step(ids) IN r \o <<x>>
RECURSIVE Outage(_, _)
Outage(q, pc) == IF q = <<>> THEN <<>>
                 ELSE LET r == Outage(Tail(q), pc) IN LET b == Chance(pc) IN
                      IF b THEN <<[op |-> "mode", n |-> Head(q), m |-> Bad(0)]>> \o r ELSE r
Prefix(ids) == LET k == Pick(1..Len(ids)) IN SubSeq(ids, 1, k)

Make ==
  \E ids \in One(IdSets(0)) :
  \E listed \in One(PickQ(<<ids, ids, Prefix(ids)>>)),
     pre \in One(Outage(ids, PickQ(<<0, 40, 70>>))),
     b \in One(Boot(ids)),
     mid \in One(Outage(ids, PickQ(<<0, 0, 30, 60, 80>>))),
     steps \in One(Steps(Pick(2..7), ids)),
     k1 \in One(PickQ(ids)), c1 \in One(PickQ(ids)), c2 \in One(PickQ(ids)), ts \in One(PickQ(<<TopicsL, Good2>>)) :
    script' = [ rules |-> <<>>,
                p |-> [ nodes |-> ids, listed |-> listed, topics |-> ts, ctl |-> k1, timeout |-> 1500,
                        groups |-> << [g |-> "g1", n |-> c1], [g |-> "g2", n |-> c2], [g |-> "g0", n |-> -1] >>,
                        steps |-> pre \o <<b>> \o mid \o steps ] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
