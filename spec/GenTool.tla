------------------------------ MODULE GenTool -------------------------------
(* Clusters, groups and runs of the offset commands to try on the real tool.  *)
EXTENDS Rand, Json, FiniteSets
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}
IdSets(x) == PickQ(<< <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3>>, <<0, 4, 7>>, <<5>>, <<1, 1001>> >>)
L(k, F(_)) == [i \in 1..k |-> F(i)]

Mark(a, b) == LET k == Pick(1..10) IN IF k <= 2 THEN -1 ELSE Pick(a..b)
Part1(ids) == LET a == PickQ(<<0, 0, 3, 100, 90000>>) IN LET d == PickQ(<<0, 1, 5, 40, 1000, 70000>>) IN
              [leader |-> PickQ(ids), start |-> a, end |-> a + d, at |-> <<Mark(a, a + d), Mark(a, a + d), Mark(a, a + d)>>]
Topic(name, far, ids) == LET k == PickQ(<<1, 2, 3, 3, 5, 12>>) IN
                         [t |-> name, far |-> far, parts |-> L(k, LAMBDA i : Part1(ids))]

Names == <<"ta", "tb", "t.c-d_e">>
Commits(tps) ==
  LET RECURSIVE all(_)
      all(i) == IF i > Len(tps) THEN <<>>
                ELSE LET RECURSIVE of(_)
                         of(p) == IF p > Len(tps[i].parts) THEN <<>>
                                  ELSE LET r == of(p + 1) IN LET b == Chance(70) IN
                                       LET o == PickQ(<<tps[i].parts[p].end, tps[i].parts[p].start, 0, tps[i].parts[p].end + 2, tps[i].parts[p].start + 1>>) IN
                                       IF b THEN <<[t |-> tps[i].t, p |-> p - 1, off |-> o]>> \o r ELSE r
                     IN of(1) \o all(i + 1)
  IN all(1)

(* the partitions of each topic are dealt to the members; some nobody has     *)
Share(tp, m, k, x) == LET ps == SelectSeq([i \in 1..Len(tp.parts) |-> i - 1], LAMBDA p : (p + x) % (k + (x % 2)) = m) IN [t |-> tp.t, ps |-> ps]
Members(tps, k) ==
  LET x == Pick(0..3) IN
  LET j == Pick(1..Len(tps)) IN
  [i \in 1..k |-> [m |-> PickQ(<<"healer-", "consumer-">>) \o ToString(i),
                   a |-> IF x = 3 /\ i = k THEN <<>>
                         ELSE SelectSeq([q \in 1..j |-> Share(tps[q], i - 1, k, x)], LAMBDA a : Len(a.ps) > 0)]]

GNames == <<"g1", "g2", "app.x", "appzx">>
Group(g, ids, tps) == [g |-> g, n |-> PickQ(ids), listed |-> TRUE, commits |-> Commits(tps), members |-> Members(tps, Pick(0..3))]

(* patterns and the groups they mean                                          *)
Sel(x) == PickQ(<< [g |-> "", groups |-> GNames], [g |-> "g*", groups |-> <<"g1", "g2">>], [g |-> "app.*", groups |-> <<"app.x">>],
                   [g |-> "*x", groups |-> <<"app.x", "appzx">>], [g |-> "*", groups |-> GNames], [g |-> "z*", groups |-> <<>>] >>)
Single(x) == LET g == PickQ(GNames) IN [g |-> g, groups |-> <<g>>]
Ts(x) == PickQ(<<-1, -1, -2, -2, 0, 1, 2>>)
TName(x) == IF Chance(4) THEN "nosuch" ELSE PickQ(<<"ta", "ta", "tb", "t.c-d_e">>)
PSet(x) == PickQ(<< <<0>>, <<1>>, <<0, 2>>, <<0, 1>>, <<2, 4, 11>>, <<99>>, <<3, 99>> >>)

Blank == [op |-> "run", cmd |-> "", t |-> "", g |-> "", groups |-> <<>>, ts |-> -1, ps |-> <<>>, all |-> TRUE, total |-> FALSE, bare |-> FALSE, boot |-> <<>>]
Boot(ids) == LET k == Pick(1..Len(ids)) IN SubSeq(ids, k, Len(ids)) \o SubSeq(ids, 1, k - 1)
Run(ids) ==
  LET k == Pick(1..100) IN
  IF k <= 30 THEN [Blank EXCEPT !.cmd = "get-offsets", !.t = IF Chance(20) THEN "far" ELSE TName(0), !.ts = Ts(0), !.bare = Chance(50), !.boot = Boot(ids)]
  ELSE IF k <= 65
  THEN LET sel == IF Chance(75) THEN Single(0) ELSE Sel(0) IN
       [Blank EXCEPT !.cmd = "get-pending", !.t = IF Chance(65) THEN TName(0) ELSE "", !.g = sel.g, !.groups = sel.groups,
                     !.total = Chance(40), !.bare = Chance(50), !.boot = Boot(ids)]
  ELSE LET sel == Single(0) IN
       LET all == Chance(60) IN
       [Blank EXCEPT !.cmd = "reset-offset", !.t = IF Chance(15) THEN "far" ELSE TName(0), !.g = sel.g, !.groups = sel.groups, !.ts = Ts(0),
                     !.all = all, !.ps = IF all THEN <<>> ELSE PSet(0), !.boot = Boot(ids)]
Step(ids) ==
  LET k == Pick(1..100) IN
  IF k <= 12 THEN [op |-> "lead", t |-> PickQ(Names), p |-> Pick(0..4), n |-> PickQ(ids)]
  ELSE IF k <= 20 THEN [op |-> "move", g |-> PickQ(GNames), n |-> PickQ(ids)]
  ELSE IF k <= 28 THEN [op |-> "append", t |-> PickQ(Names), p |-> Pick(0..4), k |-> Pick(1..9)]
  ELSE IF k <= 31 THEN [op |-> "down", n |-> PickQ(ids)]
  ELSE IF k <= 34 THEN [op |-> "up", n |-> PickQ(ids)]
  ELSE Run(ids)

Rule(ids) ==
  LET k == Pick(1..3) IN
  LET api == PickQ(<<"ListOffsets", "ListOffsets", "OffsetFetch", "OffsetCommit", "OffsetCommit", "FindCoordinator", "Metadata", "DescribeGroups", "ListGroups">>) IN
  [api |-> api, node |-> 0, n |-> k, upto |-> k + PickQ(<<0, 0, 1, 5>>),
   act |-> PickQ(<<"err", "err", "drop", "rst", "cut">>), arg |-> PickQ(<<6, 3, 16, 14, 12>>)]
Rules(x) == LET k == PickQ(<<0, 0, 0, 1, 1, 2>>) IN L(k, LAMBDA i : Rule(0))

Make ==
  \E ids \in One(IdSets(0)) :
  \E ta \in One(Topic("ta", FALSE, ids)), tb \in One(Topic("tb", FALSE, ids)), tc \in One(Topic("t.c-d_e", FALSE, ids)), far \in One(Topic("far", TRUE, ids)) :
  \E g1 \in One(Group(GNames[1], ids, <<ta, tb, tc>>)), g2 \in One(Group(GNames[2], ids, <<tb, tc>>)),
     g3 \in One(Group(GNames[3], ids, <<ta>>)), g4 \in One(Group(GNames[4], ids, <<tc, ta>>)),
     steps \in One(L(Pick(3..7), LAMBDA i : Step(ids))), rules \in One(Rules(0)),
     lo \in One(PickQ(<<0, 1, 99>>)), last \in One(Run(ids)) :
    script' = [ rules |-> rules,
                p |-> [ nodes |-> ids, topics |-> <<ta, tb, tc, far>>, groups |-> <<g1, g2, g3, g4>>,
                        max |-> IF lo = 99 THEN [Nothing |-> 0] ELSE [ListOffsets |-> lo],
                        steps |-> steps \o <<last>> ] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
