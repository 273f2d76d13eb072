---------------------------- MODULE GenProducer -----------------------------
(* Callers and environments for a producer.  Focus is the property the        *)
(* scripts should bear on.                                                    *)
EXTENDS Rand, Json
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}
Op(o, a) == [op |-> o, arg |-> a, kc |-> -1, k |-> 0, vc |-> 2]
Add(kc, k, vc) == [op |-> "add", arg |-> 0, kc |-> kc, k |-> k, vc |-> vc]

Key(x) == CASE Focus = "P03" -> PickQ(<<-1, -1, 1, 2, 3, 4, 5, 6, 7>>)
         [] Focus = "P02" -> PickQ(<<-1, 100, 100, 100, 7, 1>>)
         [] OTHER -> PickQ(<<-1, -1, 100>>)
Val(x) == CASE Focus = "P03" -> Pick({0, 1, 2, 3, 4, 5, 6, 7})
         [] OTHER -> PickQ(<<2, 2, 7, 4>>)
Msg(pk) == Add(IF pk = "null" THEN -1 ELSE IF pk = "keyed" THEN 100 ELSE Key(0), Pick(0..9), Val(0))

Step(pk) ==
  CASE Focus = "P01" -> Pick({<<Msg(pk)>>, <<Msg(pk)>>, <<Msg(pk), Msg(pk)>>, <<Op("flush", 0)>>,
                              <<Op("sleep", Pick({1, 4, 12}))>>})
    [] Focus = "P02" -> Pick({<<Msg(pk)>>, <<Msg(pk)>>, <<Msg(pk), Msg(pk)>>, <<Op("sleep", Pick({1, 20}))>>})
    [] Focus = "P03" -> Pick({<<Msg(pk)>>, <<Msg(pk), Msg(pk), Msg(pk)>>, <<Op("flush", 0)>>})
    [] OTHER -> Pick({<<Msg(pk)>>, <<Msg(pk), Msg(pk)>>, <<Op("flush", 0)>>, <<Op("sleep", Pick({1, 3, 8}))>>})

RECURSIVE Steps(_, _)
Steps(k, pk) == IF k = 0 THEN <<>> ELSE Steps(k - 1, pk) \o Step(pk)

(* an operation somewhere in a thread                                         *)
Insert(th, i, op) == SubSeq(th, 1, i) \o <<op>> \o SubSeq(th, i + 1, Len(th))

RECURSIVE Threads(_, _)
Threads(k, pk) == IF k = 0 THEN <<>> ELSE Append(Threads(k - 1, pk), Steps(Pick(2..8), pk))

NetActs == {"drop", "rst", "late", "stall", "cut", "cutstall", "thenclose", "seg"}
Fault(x) ==
  LET a == Pick(NetActs \cup {"err"}) IN
  [api |-> "Produce", n |-> Pick(1..5), upto |-> 0, act |-> a,
   arg |-> IF a = "err" THEN Pick({2, 5, 6, 7, 10, -1, 87}) ELSE Pick({1, 4, 6, 10, 20, -50, -90})]
EarlyFault(x) ==
  [api |-> Pick({"Metadata", "ApiVersions"}), n |-> Pick(1..3), upto |-> 0, act |-> Pick({"drop", "rst"}), arg |-> 0]
RECURSIVE Faults(_)
Faults(k) == IF k = 0 THEN <<>> ELSE Append(Faults(k - 1), Fault(0))

(* -------------------------------------------------------------- P02      *)
RECURSIVE Keys(_, _)
Keys(a, b) == IF a > b THEN <<>> ELSE <<Add(100, a, 2)>> \o Keys(a + 1, b)
Course2(moves) ==
  IF moves = 0 THEN <<>>
  ELSE <<Op("move", Pick(0..6))>> \o (IF Chance(30) THEN <<Op("move", Pick(0..6))>> ELSE <<>>)
       \o <<Op("refresh", 0)>> \o Keys(0, Pick(3..9)) \o <<Add(-1, 0, 2), Add(-1, 1, 2), Add(-1, 2, 2)>>

Base(simple, parts, threads, after, rules) ==
  [ mode |-> IF simple THEN "simple" ELSE "producer", parts |-> parts, only |-> 0,
    nodes |-> Pick(1..3), spread |-> PickQ(<<1, 1, 2>>), timeout |-> Pick({200, 300}),
    max |-> PickQ(<<1, 2, 3, 3, 5>>), acks |-> Pick({-1, 1}), codec |-> "none", interval |-> 100000,
    age |-> 100000, prodver |-> 9, uniq |-> TRUE, threads |-> threads, after |-> after, badparts |-> <<>>,
    trouble |-> FALSE, closes |-> FALSE, later |-> 3, quiet |-> 20, client |-> "v", longtopic |-> FALSE,
    reqtmo |-> 1500, zero |-> Chance(25) ]

MakeP01 ==
  \E simple \in One(Chance(70)), timer \in One(Chance(40)), nf \in One(PickQ(<<0, 0, 1, 2, 3>>)),
     nth \in One(Pick(1..4)), rough \in One(Chance(15)), pk \in One(Pick({"any", "keyed", "null"})) :
  \E parts \in One(Pick({1, 2, 3})), rules \in One(Faults(nf)), th \in One(Threads(nth, pk)) :
  \E th2 \in One(IF ~rough THEN th
                 ELSE Append(th, <<Op("sleep", Pick(0..5)), Op(Pick({"drop", "down"}), Pick(0..5)),
                                   Op("sleep", Pick({0, 5, 30})), Op("up", 0), Op("sleep", 20)>> \o Steps(3, pk))) :
    script' = [ rules |-> rules,
                p |-> [Base(simple, parts, th2, Steps(Pick(0..4), pk), rules) EXCEPT
                         !.only = IF simple THEN Pick(0..(parts - 1)) ELSE 0,
                         !.interval = IF timer THEN Pick({5, 10, 20}) ELSE 100000,
                         !.age = IF ~simple /\ Chance(40) THEN Pick({15, 30}) ELSE 100000] ]

MakeP02 ==
  \E parts \in One(Pick({1, 2, 3, 5, 7})), moves \in One(PickQ(<<0, 1, 1>>)), nodes \in One(Pick({2, 3, 4})),
     bad \in One(Chance(20)), nth \in One(Pick(1..3)) :
  \E th \in One(Threads(nth, "any")), after \in One(Course2(moves) \o (IF moves > 0 /\ Chance(40) THEN Course2(moves) ELSE <<>>)) :
    script' = [ rules |-> IF Chance(25) THEN <<EarlyFault(0)>> ELSE <<>>,
                p |-> [Base(FALSE, parts, th, after, <<>>) EXCEPT
                         !.nodes = nodes, !.age = IF moves > 0 THEN Pick({20, 40}) ELSE 100000,
                         !.interval = Pick({10, 20}), !.trouble = TRUE,
                         !.badparts = IF bad THEN <<Pick(1..6)>> ELSE <<>>] ]

MakeP03 ==
  \E simple \in One(Chance(75)), acks \in One(Pick({-1, 1, 0})) :
  \E parts \in One(IF simple THEN 2 ELSE Pick(1..3)), th \in One(<<Steps(Pick(2..10), "any")>>) :
    script' = [ rules |-> <<>>,
                p |-> [Base(simple, parts, th, <<>>, <<>>) EXCEPT
                         !.only = IF simple THEN Pick(0..1) ELSE 0, !.uniq = Chance(30),
                         !.codec = Pick({"none", "gzip", "snappy", "lz4"}), !.acks = acks,
                         !.prodver = PickQ(<<9, 9, 9, 7, 0>>), !.max = Pick({1, 2, 4, 70, 200}),
                         !.reqtmo = Pick({1500, 1, 60000}), !.client = Pick({"v", "", "a-rather-long-client-id"}),
                         !.longtopic = Chance(15), !.interval = Pick({10, 100000})] ]

(* many records in one batch, beyond what one byte numbers                     *)
MakeP03Lots ==
  \E k \in One(Pick({65, 130, 200})) :
  \E th \in One(<<[i \in 1..k |-> Add(IF Chance(50) THEN -1 ELSE 100, Pick(0..9), Pick({1, 2, 3}))]>>) :
    script' = [ rules |-> <<>>,
                p |-> [Base(TRUE, 1, th, <<>>, <<>>) EXCEPT !.max = Pick({64, 66, 128, 300}), !.uniq = TRUE,
                         !.codec = Pick({"none", "gzip", "snappy", "lz4"})] ]

MakeP04 ==
  \E simple \in One(Chance(60)), nth \in One(Pick(1..4)), fault \in One(Chance(30)), down \in One(Chance(12)),
     timer \in One(Chance(40)), pk \in One(Pick({"any", "keyed", "null"})) :
  \E parts \in One(Pick({1, 2, 3})), th \in One(Threads(nth, pk)), j \in One(Pick(1..nth)) :
  \E th2 \in One([th EXCEPT ![j] = Insert(@, Pick(0..Len(@)), Op("close", 0))]) :
  \E th3 \in One(IF Chance(35) THEN Append(th2, <<Op("sleep", Pick(0..4)), Op("close", 0)>>) ELSE th2) :
    script' = [ rules |-> IF fault THEN Faults(Pick(1..2)) ELSE <<>>,
                p |-> [Base(simple, parts, IF down THEN Append(th3, <<Op("sleep", Pick(0..4)), Op("down", Pick(0..3))>>) ELSE th3,
                            <<>>, <<>>) EXCEPT
                         !.closes = TRUE, !.interval = IF timer THEN Pick({5, 10}) ELSE 100000,
                         !.trouble = fault, !.age = IF ~simple /\ Chance(50) THEN Pick({10, 25}) ELSE 100000,
                         !.quiet = Pick({20, 60}), !.later = Pick(2..4)] ]

Make == CASE Focus = "P01" -> MakeP01
          [] Focus = "P02" -> MakeP02
          [] Focus = "P03" -> IF Chance(12) THEN MakeP03Lots ELSE MakeP03
          [] Focus = "P04" -> MakeP04

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
