----------------------------- MODULE GenRelease -----------------------------
(* Lives of handles to try on the real code: made, used and closed while      *)
(* leaders move, connections are lost and brokers go away and come back.      *)
EXTENDS Rand, Json
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}
Kind(x) == PickQ(<<"client", "brokers", "simpleproducer", "producer", "producer", "simpleconsumer", "simpleconsumer", "consumer", "consumer", "group", "group">>)
Use(h, k) == [op |-> "use", h |-> h, a |-> [what |-> Pick(0..5), n |-> Pick(1..k), p |-> Pick(0..3), k |-> Pick(1..4), key |-> Chance(60),
                                           flush |-> Chance(40), ms |-> PickQ(<<0, 20, 60, 130>>)]]
Event(k) ==
  LET x == Pick(1..100) IN
  IF x <= 40 THEN [op |-> "move", a |-> [i |-> Pick(0..3), n |-> Pick(1..k), all |-> Chance(60)]]
  ELSE IF x <= 50 THEN [op |-> "coord", a |-> [n |-> Pick(1..k)]]
  ELSE IF x <= 75 THEN [op |-> "drop", a |-> [n |-> Pick(0..k), rst |-> Chance(50)]]
  ELSE [op |-> "wait", a |-> [ms |-> PickQ(<<10, 60, 130>>)]]
RECURSIVE Life(_, _, _)
Life(h, k, m) ==
  IF m = 0 THEN <<>>
  ELSE LET r == Life(h, k, m - 1) IN LET x == Pick(1..100) IN
       r \o (IF x <= 60 THEN <<Use(h, k)>> ELSE IF x <= 92 \/ k = 1 THEN <<Event(k), Use(h, k)>>
             ELSE LET d == Pick(1..k) IN <<[op |-> "down", a |-> [n |-> d]], Use(h, k), [op |-> "up", a |-> [n |-> d]]>>)
MakeH(h) == [op |-> "make", h |-> h, kind |-> Kind(0)]
CloseH(h) == [op |-> "close", h |-> h, twice |-> Chance(20)]
One1(h, k) == <<MakeH(h)>> \o Life(h, k, Pick(0..7)) \o <<CloseH(h)>>
Two(k) == <<MakeH("a")>> \o Life("a", k, Pick(0..3)) \o <<MakeH("b")>> \o Life("b", k, Pick(0..3)) \o Life("a", k, Pick(0..2))
          \o (LET c == Chance(50) IN IF c THEN <<CloseH("a")>> \o Life("b", k, Pick(0..2)) \o <<CloseH("b")>>
                                     ELSE <<CloseH("b")>> \o Life("a", k, Pick(0..2)) \o <<CloseH("a")>>)
Ops(k) == LET x == Pick(1..100) IN IF x <= 65 THEN One1("a", k) ELSE IF x <= 85 THEN Two(k) ELSE One1("a", k) \o One1("b", k)

Fault(x) == [api |-> PickQ(<<"Metadata", "Metadata", "ApiVersions", "Fetch", "Produce", "FindCoordinator", "ListOffsets", "OffsetFetch", "OffsetCommit", "JoinGroup",
                            "SyncGroup", "Heartbeat", "ListGroups", "DescribeConfigs", "CreateTopics",
                            "SaslHandshake", "SaslAuthenticate", "SaslAuthenticate">>),
             n |-> Pick(1..4), upto |-> 0, act |-> PickQ(<<"drop", "rst", "cut", "cutrst", "stall", "err", "seg">>), arg |-> PickQ(<<3, 9, 6, 16, -60>>), node |-> PickQ(<<0, 0, 1>>)]
RECURSIVE Faults(_)
Faults(k) == IF k = 0 THEN <<>> ELSE LET r == Faults(k - 1) IN LET f == Fault(0) IN r \o <<f>>
RECURSIVE Leaders(_, _)
Leaders(m, k) == IF m = 0 THEN <<>> ELSE LET r == Leaders(m - 1, k) IN LET x == Pick(1..k) IN r \o <<x>>

Make ==
  \E k \in One(PickQ(<<1, 2, 2, 3>>)) :
  \E ops \in One(Ops(k)), leaders \in One(Leaders(Pick(1..4), k)), fl \in One(Faults(PickQ(<<0, 0, 1, 1, 2>>))) :
    script' =
      [ rules |-> fl,
        p |-> [ nodes |-> k, leaders |-> leaders, coord |-> Pick(1..k), ops |-> ops, alias |-> Chance(20), sasl |-> Chance(25), empty |-> PickQ(<<0, 0, 0, 0, 1, 1, 2, 4>>), grouped |-> Chance(60),
                auto |-> Chance(70), part |-> IF Chance(90) THEN 0 ELSE 9, chan |-> PickQ(<<0, 1, 50>>), age |-> PickQ(<<50, 50, 100000>>),
                flush |-> PickQ(<<30, 100000>>), acks |-> PickQ(<<0, 1, -1>>), max |-> PickQ(<<1, 3, 100>>), wait |-> PickQ(<<10, 40>>),
                stored |-> PickQ(<<0, 3, 9>>) ] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
