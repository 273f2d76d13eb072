---------------------------- MODULE GenConsumer -----------------------------
(* Environments for a consumer: what the log holds and how it changes, which  *)
(* requests meet which fault, how the application behaves.  Focus is the      *)
(* property the scripts should bear on.                                       *)
EXTENDS Rand, Json
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}

(* ------------------------------------------------------------- the log    *)
Plain(m) == [m |-> m, c |-> 0, n |-> Pick(1..4), gap |-> 0, hole |-> 0, kind |-> "data",
             k |-> 2, v |-> Pick({2, 7}), h |-> 0, la |-> FALSE, st |-> 0, dt |-> Pick({0, 3}), tail |-> 0, txn |-> m = 2 /\ Chance(15)]

Rich(m) ==
  [m |-> m, c |-> PickQ(<<0, 0, 1, 2, 3>>), n |-> PickQ(<<1, 1, 2, 3, 5, 12, 40>>), gap |-> PickQ(<<0, 0, 0, 1, 4>>),
   hole |-> IF m = 2 THEN PickQ(<<0, 0, 1, 2>>) ELSE 0, kind |-> "data",
   k |-> Pick(0..7), v |-> Pick(0..7), h |-> IF m = 2 THEN Pick(0..4) ELSE 0,
   la |-> Chance(25), st |-> Pick(0..1), dt |-> Pick({0, 1, 9, 1000, 77, 78, 79, 80}),
   tail |-> IF m = 2 THEN PickQ(<<0, 0, 0, 2>>) ELSE 0, txn |-> m = 2 /\ Chance(25)]

Odd(m) ==
  IF m < 2 THEN [Plain(m) EXCEPT !.n = Pick(1..3), !.v = Pick({2, 4, 5, 6}), !.gap = PickQ(<<0, 0, 3>>), !.c = Pick({0, 1, 2, 3})]
  ELSE [Plain(m) EXCEPT !.kind = PickQ(<<"data", "data", "data", "empty", "empty", "control">>),
           !.n = Pick({1, 2, 3, 8}), !.v = Pick({2, 4, 5, 6}), !.gap = PickQ(<<0, 0, 3>>), !.hole = Pick(0..2),
           !.tail = PickQ(<<0, 0, 1, 5>>), !.c = PickQ(<<0, 0, 1, 2, 3>>)]

Batch(m) == CASE Focus = "C05" -> Rich(m)
              [] Focus = "C07" -> Odd(m)
              [] OTHER -> IF Chance(70) THEN Plain(m) ELSE IF Chance(50) THEN Rich(m) ELSE Odd(m)

RECURSIVE Log(_, _, _)
Log(k, m, top) ==     \* magic numbers never decrease
  IF k = 0 THEN <<>>
  ELSE LET q == IF m < top /\ Chance(40) THEN m + 1 ELSE m IN <<Batch(q)>> \o Log(k - 1, q, top)

(* ------------------------------------------------------------- faults     *)
Cuts == {"cut", "cutstall", "cutrst"}
CutAt == {1, 3, 4, 5, 9, 20, 40, 70, 90, -10, -30, -50, -70, -90, -99}
NetActs == {"drop", "rst", "late", "stall", "thenclose"} \cup Cuts

Fault(api, acts, codes, nmax) ==
  LET a == Pick(acts) IN
  [api |-> api, n |-> Pick(1..nmax), upto |-> 0, act |-> a,
   arg |-> IF a = "err" THEN Pick(codes) ELSE Pick(CutAt)]

FetchFault(x) == Fault("Fetch", NetActs \cup {"seg", "err"}, {3, 5, 6, 9, 6, -1, 56}, 7)
ListFault(x)  == Fault("ListOffsets", {"drop", "late", "err", "err", "cut", "stall"}, {3, 5, 6, 6, -1}, 2)
OffFault(x)   == Fault("OffsetFetch", {"drop", "late", "err", "err", "cut", "rst"}, {14, 15, 16, 16}, 2)
ComFault(x)   == Fault("OffsetCommit", {"drop", "late", "err", "err", "cut", "stall"}, {14, 15, 16, 16, -1}, 4)
MetaFault(x)  == Fault("Metadata", {"drop", "late", "rst"}, {5}, 5)
CoordFault(x) == Fault("FindCoordinator", {"drop", "late", "err"}, {15, 15, 16}, 3)

AnyFault(x) ==
  CASE Focus = "C01" -> IF Chance(85) THEN FetchFault(0) ELSE MetaFault(0)
    [] Focus = "C02" -> Pick({ListFault(0), OffFault(0), ListFault(0), OffFault(0), MetaFault(0), CoordFault(0)})
    [] Focus = "C03" -> IF Chance(60) THEN ListFault(0) ELSE FetchFault(0)
    [] Focus = "C04" -> IF Chance(75) THEN ComFault(0) ELSE Pick({CoordFault(0), FetchFault(0), OffFault(0)})
    [] Focus = "C05" -> [FetchFault(0) EXCEPT !.act = "seg"]
    [] Focus = "C06" -> Pick({ListFault(0), OffFault(0), ComFault(0), MetaFault(0), CoordFault(0), FetchFault(0)})
    [] OTHER         -> FetchFault(0)

RECURSIVE Faults(_)
Faults(k) == IF k = 0 THEN <<>> ELSE Append(Faults(k - 1), AnyFault(0))

(* ------------------------------------------------------------- the course *)
Op(o, a, p) == [op |-> o, arg |-> a, p |-> p, b |-> Plain(2)]
App(m, p) == [op |-> "append", arg |-> 0, p |-> p, b |-> Batch(m)]

Step(m, p) ==
  CASE Focus = "C01" ->
         Pick({<<App(m, p)>>, <<App(m, p), Op("take", 1, p)>>, <<Op("move", PickQ(<<0, 0, 1, 3>>), p), App(m, p)>>,
               <<Op("drop", 0, p)>>, <<Op("epoch", 0, p), App(m, p)>>, <<Op("rst", 0, p)>>, <<Op("take", 3, p)>>, <<Op("pause", 20, p)>>,
               <<Op("kill", Pick(0..1), p), Op("sleep", Pick({5, 60}), p), Op("up", 0, p)>>})
    [] Focus = "C02" ->
         Pick({<<App(m, p)>>, <<Op("take", 2, p)>>, <<Op("move", 0, p)>>, <<Op("coord", 0, p)>>, <<Op("sleep", 10, p)>>})
    [] Focus = "C03" ->
         Pick({<<App(m, p), App(m, p)>>, <<Op("take", 2, p)>>, <<Op("pause", 30, p)>>,
               <<App(m, p), App(m, p), App(m, p), Op("trim", PickQ(<<50, 100, 100>>), p)>>,
               <<Op("trim", Pick({30, 70, 100}), p), App(m, p)>>, <<Op("move", 0, p)>>})
    [] Focus = "C04" ->
         Pick({<<App(m, p)>>, <<App(m, p), Op("take", 2, p), Op("commit", 0, p)>>, <<Op("pause", Pick({20, 90}), p)>>,
               <<App(m, p), App(m, p), Op("pause", 60, p)>>, <<Op("commit", 0, p)>>,
               <<Op("coord", 0, p)>>, <<Op("sleep", 50, p)>>, <<Op("move", 0, p), Op("drop", 0, p)>>,
               <<App(m, p), App(m, p), Op("trim", Pick({50, 100}), p)>>})
    [] Focus = "C06" ->
         Pick({<<App(m, p)>>, <<App(m, p), Op("take", 2, p)>>, <<Op("pause", 30, p)>>, <<Op("move", 0, p)>>,
               <<Op("sleep", Pick({1, 5, 20, 60}), p)>>, <<Op("down", Pick(0..3), p)>>, <<Op("coord", 0, p)>>})
    [] OTHER -> Pick({<<App(m, p)>>, <<App(m, p), App(m, p)>>, <<App(m, p), Op("take", 1, p)>>, <<Op("take", 4, p)>>})

RECURSIVE Course(_, _, _)
Course(k, m, parts) ==
  IF k = 0 THEN <<>> ELSE Course(k - 1, m, parts) \o Step(m, Pick(0..(parts - 1)))

(* Some of the partitions, in some order.                                     *)
RECURSIVE Some(_, _)
Some(S, k) == IF k = 0 THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Some(S \ {x}, k - 1)

LastMagic(l, d) == IF l = <<>> THEN d ELSE l[Len(l)].m

Multi(x) == Chance(IF Focus \in {"C01", "C04", "C06"} THEN 30 ELSE IF Focus = "C05" THEN 10 ELSE 20)

Make ==
  \E multi \in One(Multi(0)), fv \in One(IF Focus = "C02" THEN 10 ELSE PickQ(<<10, 10, 10, 7, 0>>)) :
  \E parts \in One(IF multi THEN Pick(1..4) ELSE 1),
     m0 \in One(IF fv = 0 THEN PickQ(<<0, 0, 1>>) ELSE IF Focus = "C05" THEN Pick(0..2) ELSE PickQ(<<2, 2, 2, 1, 0>>)) :
  \E log \in One(Log(Pick(CASE Focus = "C05" -> 1..5 [] Focus = "C07" -> 2..7 [] OTHER -> 0..4), m0, IF fv = 0 THEN m0 ELSE 2)) :
  \E ops \in One(Course(Pick(CASE Focus \in {"C01", "C03", "C04"} -> 2..6 [] Focus = "C02" -> 0..2 [] OTHER -> 0..4),
                        LastMagic(log, m0), parts)),
     rules \in One(Faults(Pick(CASE Focus = "C01" -> 0..4 [] Focus \in {"C02", "C04", "C06"} -> 0..3
                                 [] Focus = "C05" -> 0..1 [] OTHER -> 0..2))),
     group \in One(Focus \in {"C04"} \/ Chance(IF Focus \in {"C02", "C06"} THEN 75 ELSE 35)),
     lo \in One(IF Focus = "C03" THEN Pick({0, 5, 20}) ELSE PickQ(<<0, 0, 3>>)),
     topics \in One(IF multi /\ parts > 1 /\ Chance(40) THEN 2 ELSE 1),
     assign \in One(IF multi /\ Chance(45) THEN Some(0..(parts - 1), Pick(1..parts)) ELSE <<>>) :
  \E start \in One(IF multi THEN Pick({-2, -1}) ELSE
                   CASE Focus \in {"C01", "C05", "C07"} -> Pick({-2, -2, -2, lo + Pick(0..3)})
                     [] Focus = "C03" -> Pick({-2, -1, Pick(0..40)})
                     [] OTHER -> Pick({-2, -2, -1, lo + Pick(0..4)})),
     auto \in One(group /\ Chance(IF Focus \in {"C04", "C06"} THEN 75 ELSE 60)),
     stop \in One(Focus = "C06" /\ Chance(45)),
     com \in One(IF group /\ Chance(IF Focus = "C02" THEN 50 ELSE 30)
                 THEN (IF Focus = "C03" THEN Pick(0..40) ELSE lo + PickQ(<<0, 0, 1, 2, 3>>)) ELSE -1) :
    script' =
      [ rules |-> rules,
        p |-> [ parts |-> parts, mode |-> IF multi THEN "multi" ELSE "simple", nodes |-> Pick(1..3),
                big |-> Chance(20), fetchver |-> fv, trunc |-> Chance(IF Focus = "C07" THEN 60 ELSE 30),
                cap_batches |-> PickQ(<<0, 0, 1, 2>>), seg |-> PickQ(<<0, 0, 0, 1, 7, 100>>),
                timeout |-> Pick({250, 400}), wait |-> Pick({5, 30, 60}), start |-> start,
                group |-> group, coord |-> 1, lo |-> lo, log |-> log, committed |-> com,
                maxbytes |-> IF Focus = "C07" THEN Pick({1, 16, 40, 100, 700}) ELSE Pick({300, 5000, 1048576}),
                auto |-> auto, interval |-> Pick({10, 30, 50}),
                topics |-> topics, assign |-> assign, later |-> Chance(30),
                zero |-> Chance(25), notleader |-> PickQ(<<6, 6, 3, 9, 5>>), aborted |-> PickQ(<<0, 0, 0, 1, 5>>),
                stale |-> IF Chance(IF Focus \in {"C02", "C06"} THEN 35 ELSE 15) THEN Pick(1..6) ELSE 0, begin |-> Chance(50),
                moren |-> PickQ(<<3, 60, 250>>), slow |-> Pick({0, 100, 300}),
                chan |-> PickQ(<<0, 0, 1, 5>>), ops |-> ops,
                drain |-> ~stop, more |-> (Focus \in {"C04", "C06"}) /\ Chance(60), moresleep |-> Pick({0, 3, 8, 25}),
                stoppaused |-> (Focus = "C06") /\ Chance(50), quiet |-> IF Focus = "C06" THEN 130 ELSE 20 ] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
