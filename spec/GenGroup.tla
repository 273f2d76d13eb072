------------------------------ MODULE GenGroup ------------------------------
(* Executions of a consumer group to try on the real code: topics, members,   *)
(* the course of joins, closes, deaths, expulsions, coordinator moves and     *)
(* rebalances, and the faults injected into the answers.                      *)
EXTENDS Rand, Json, FiniteSets
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}

(* ---------------------------------------------------------------- topics  *)
Ids(x) == PickQ(<< <<0>>, <<0, 1>>, <<0, 1, 2>>, <<1, 0>>, <<3, 1, 7>>, <<5, 2, 9, 4>>, <<2, 0, 1, 4, 3>>,
                   <<10, 3, 2, 7, 5, 8, 1>> >>)
Few(x) == PickQ(<< <<0>>, <<0, 1>>, <<0, 1>>, <<1, 0, 2>>, <<4, 2>> >>)
Topic(name, x) == [t |-> name, ps |-> IF Focus = "G01" THEN Ids(0) ELSE Few(0), err |-> IF Chance(6) THEN 5 ELSE 0]

SubsOf(x) == PickQ(<< <<"ta">>, <<"ta">>, <<"tb">>, <<"ta", "tb">>, <<"tb", "ta">>, <<"tb", "tb">>, <<>>, <<"tc">>, <<"ta", "tc">> >>)
Virt(i) == [id |-> PickQ(<<"a", "z", "c1", "m-1", "m-10", "m-2">>) \o ToString(i), subs |-> SubsOf(0),
            kind |-> PickQ(<<"plain", "plain", "null", "v1", "v3", "empty">>)]
RECURSIVE Virts(_)
Virts(k) == IF k = 0 THEN <<>> ELSE Append(Virts(k - 1), Virt(k))

RECURSIVE Plan(_)
Plan(k) == IF k = 0 THEN <<>> ELSE Append(Plan(k - 1), PickQ(<< <<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<0>> >>))

(* ---------------------------------------------------------------- faults  *)
Rule(api, act, arg, tag) ==
  [api |-> api, n |-> Pick(1..4), upto |-> 0, act |-> act, arg |-> arg, tag |-> tag]
Tag(x) == PickQ(<<"", "c1", "c2">>)
Net(x) == PickQ(<<"drop", "rst", "late", "cut", "stall", "thenclose">>)
Codes(api) == CASE api = "JoinGroup" -> <<14, 15, 16, 25, 25, 27, 24, -1>>
                [] api = "SyncGroup" -> <<14, 15, 16, 22, 25, 25, 27, 27, -1>>
                [] api = "Heartbeat" -> <<14, 15, 16, 22, 25, 25, 27, 27>>
                [] api = "OffsetCommit" -> <<14, 15, 16, 22, 25, 27>>
                [] api = "OffsetFetch" -> <<14, 15, 16, 16>>
                [] api = "FindCoordinator" -> <<15, 15, 14>>
                [] api = "LeaveGroup" -> <<15, 16, 25>>
                [] OTHER -> <<5, 6>>
Fault(x) ==
  LET api == PickQ(CASE Focus = "G02" -> <<"JoinGroup", "SyncGroup", "Heartbeat", "Heartbeat", "FindCoordinator", "Metadata">>
                     [] Focus = "G03" -> <<"SyncGroup", "Heartbeat", "Heartbeat", "OffsetCommit", "OffsetFetch", "Fetch">>
                     [] Focus = "G04" -> <<"Heartbeat", "OffsetCommit", "OffsetCommit", "OffsetFetch", "OffsetFetch", "Fetch", "JoinGroup",
                                           "ListOffsets">>
                     [] Focus = "G05" -> <<"JoinGroup", "SyncGroup", "Heartbeat", "LeaveGroup", "FindCoordinator", "OffsetFetch", "Metadata",
                                           "OffsetCommit">>
                     [] OTHER -> <<"JoinGroup", "SyncGroup", "Heartbeat", "Metadata">>) IN
  LET act == IF api = "Metadata" THEN PickQ(<<"drop", "late", "rst">>) ELSE IF Chance(65) THEN "err" ELSE Net(0) IN
  Rule(api, act, IF act = "err" THEN PickQ(Codes(api)) ELSE PickQ(<<3, 7, 10, -40, -80>>), Tag(0))

RECURSIVE Faults(_)
Faults(k) == IF k = 0 THEN <<>> ELSE Append(Faults(k - 1), Fault(0))

(* ---------------------------------------------------------------- course  *)
Op(o, a) == [op |-> o, arg |-> a]
Who(x) == Pick(0..5)
Wait(x) == PickQ(<<Op("settle", 0), Op("sleep", 30), Op("sleep", 100), Op("sleep", 5), Op("take", 2)>>)
Step(x) ==
  CASE Focus = "G01" ->
         PickQ(<< <<Op("settle", 0)>>, <<Op("settle", 0), Op("rebalance", 0), Op("settle", 0)>>, <<Op("rebalance", 0), Op("sleep", 90)>>,
                  <<Op("start", Who(0)), Op("settle", 0)>>, <<Op("settle", 0), Op("expire", Who(0)), Op("settle", 0)>> >>)
    [] Focus = "G02" ->
         PickQ(<< <<Op("start", Who(0)), Wait(0)>>, <<Op("rebalance", 0), Wait(0)>>, <<Op("expire", Who(0)), Wait(0)>>,
                  <<Op("coord", 0), Wait(0)>>, <<Op("coordlose", 0), Wait(0)>>, <<Op("drop", 0), Wait(0)>>, <<Op("rst", 0)>>,
                  <<Op("kill", Who(0)), Wait(0), Op("up", 0)>>, <<Op("down", Who(0)), Op("sleep", 150), Op("up", 0)>>,
                  <<Op("put", Who(0))>>, <<Op("regen", 0), Wait(0)>> >>)
    [] Focus = "G03" ->
         PickQ(<< <<Op("start", Who(0)), Wait(0)>>, <<Op("put", Who(0)), Op("rebalance", 0), Wait(0)>>, <<Op("commit", Who(0)), Op("commit", Who(0))>>,
                  <<Op("put", Who(0)), Op("put", Who(0)), Op("expire", Who(0)), Wait(0)>>, <<Op("pause", Who(0)), Op("put", Who(0))>>,
                  <<Op("put", Who(0)), Op("put", Who(0)), Op("rebalance", 0), Op("pause", Who(0)), Op("commit", Who(0))>>,
                  <<Op("close", Who(0)), Wait(0)>>, <<Op("grow", 0), Op("settle", 0)>>, <<Op("move", 0), Op("put", Who(0))>> >>)
    [] Focus = "G04" ->
         PickQ(<< <<Op("start", Who(0)), Wait(0)>>, <<Op("put", Who(0)), Op("mute", Who(0)), Wait(0)>>, <<Op("put", Who(0)), Op("put", Who(0))>>,
                  <<Op("put", Who(0)), Op("take", 2), Op("close", Who(0)), Wait(0)>>, <<Op("put", Who(0)), Op("expire", Who(0)), Wait(0)>>,
                  <<Op("put", Who(0)), Op("coord", 0), Wait(0)>>, <<Op("put", Who(0)), Op("coordlose", 0), Wait(0)>>,
                  <<Op("kill", Who(0)), Op("put", Who(0)), Wait(0), Op("up", 0)>>, <<Op("grow", 0), Wait(0)>>, <<Op("commit", Who(0))>>,
                  <<Op("move", 0), Op("put", Who(0))>>, <<Op("pause", Who(0))>>, <<Op("rebalance", 0), Op("put", Who(0)), Wait(0)>>,
                  <<Op("put", Who(0)), Op("regen", 0), Wait(0)>> >>)
    [] OTHER ->
         PickQ(<< <<Op("start", Who(0)), Wait(0)>>, <<Op("close", Who(0))>>, <<Op("close", Who(0)), Wait(0)>>,
                  <<Op("rebalance", 0), Op("close", Who(0))>>, <<Op("rebalance", 0), Op("sleep", Pick(1..80)), Op("close", Who(0))>>,
                  <<Op("down", Who(0)), Op("sleep", Pick({1, 40, 120})), Op("close", Who(0)), Op("up", 0)>>,
                  <<Op("put", Who(0)), Op("fairclose", Who(0))>>, <<Op("put", Who(0)), Op("settle", 0), Op("put", Who(0)), Op("fairclose", Who(0))>>,
                  <<Op("coord", 0), Op("sleep", Pick(0..70)), Op("close", Who(0))>>, <<Op("expire", Who(0)), Op("close", Who(0))>>,
                  <<Op("pause", Who(0))>>, <<Op("put", Who(0)), Op("commit", Who(0))>> >>)
RECURSIVE Course(_)
Course(k) == IF k = 0 THEN <<>> ELSE Course(k - 1) \o Step(0)

Begin(x) == IF Focus = "G05" /\ Chance(50) THEN <<Op("start", 0), Op("sleep", Pick(0..60))>>
            ELSE IF Focus = "G05" THEN <<Op("start", 0), Op("start", 1), Op("settle", 0)>>
            ELSE PickQ(<< <<Op("start", 0), Wait(0)>>, <<Op("start", 0), Op("start", 1), Wait(0)>> >>)

Make ==
  \E nm \in One(IF Focus = "G01" THEN Pick(1..2) ELSE PickQ(<<1, 2, 2, 2, 3>>)),
     virt \in One(Focus = "G01" \/ (Focus \in {"G02", "G03"} /\ Chance(35))) :
  \E two \in One(Focus = "G01" \/ Chance(25)),
     leads \in One(virt /\ Focus \in {"G02", "G03"} /\ Chance(60)) :
  \E topics \in One(IF leads THEN <<[t |-> "ta", ps |-> <<0, 1>>, err |-> 0]>>
                    ELSE IF two THEN <<Topic("ta", 0), Topic("tb", 0)>> ELSE <<Topic("ta", 0)>>),
     vs \in One(IF virt THEN Virts(IF Focus = "G01" THEN Pick(0..5) ELSE Pick(1..2)) ELSE <<>>),
     ops \in One(Begin(0) \o Course(Pick(1..4))),
     rules \in One(Faults(CASE Focus = "G01" -> PickQ(<<0, 0, 0, 1>>) [] OTHER -> PickQ(<<0, 1, 1, 2, 3>>))),
     first \in One(Pick(0..4)), auto \in One(Chance(80)), shuffle \in One(Focus = "G01" \/ Chance(20)) :
    script' =
      [ rules |-> rules,
        p |-> [ nodes |-> Pick(1..3), topics |-> topics, virt |-> vs, virtleads |-> leads,
                plan |-> IF leads THEN Plan(4) ELSE <<>>,
                members |-> [i \in 1..(IF leads THEN 1 ELSE nm) |->
                               [m |-> "c" \o ToString(i), topic |-> IF two /\ ~leads /\ Chance(40) THEN "tb" ELSE "ta"]],
                shuffle |-> shuffle, first |-> first, begin |-> Chance(75), auto |-> auto, interval |-> Pick({10, 30, 60}),
                committed |-> IF Chance(20) THEN Pick(0..first) ELSE -1,
                session |-> Pick({400, 600}), timeout |-> Pick({200, 300}), wait |-> Pick({5, 30}),
                metaage |-> IF shuffle \/ leads THEN 100000 ELSE PickQ(<<100000, 150, 60>>),
                joindelay |-> Pick({5, 30}), holdjoin |-> IF Focus = "G05" THEN PickQ(<<0, 0, 40>>) ELSE 0,
                holdsync |-> IF Focus = "G05" THEN PickQ(<<0, 0, 40>>) ELSE PickQ(<<0, 0, 15>>),
                zero |-> Chance(25),
                failcommits |-> IF Focus = "G04" /\ auto /\ Chance(60) THEN PickSeq({14, 15, 16, -1, 7, 12}, Pick(1..3)) ELSE <<>>,
                closewait |-> Pick({1500, 4000}), coord |-> 1,
                chan |-> PickQ(<<0, 0, 1, 5>>), ops |-> ops, drain |-> (Focus # "G05" \/ Chance(40)),
                quiet |-> IF Focus = "G05" THEN 150 ELSE 30 ] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
