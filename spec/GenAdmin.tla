------------------------------ MODULE GenAdmin ------------------------------
(* Administrative calls to try on the real code: cluster layouts, version     *)
(* ranges, arguments, and what the brokers answer.                            *)
(* Strings that start with $ and # stand for values TLC cannot write (null,   *)
(* long, non-ASCII, 64-bit); the driver expands them.                         *)
EXTENDS Rand, Json, FiniteSets
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}
Names == <<"t1", "t2", "t3", "$long", "$utf", "$sp", "$edge">>
Name(x) == PickQ(<<"t1", "t2", "t3", "t1", "a", "$long", "$utf", "$sp", "$edge", "$huge">>)
Str(x) == PickQ(<<"", "v", "x y", "$long", "$utf", "$sp", "$edge", "User:*", "127.0.0.1">>)
NStr(x) == PickQ(<<"$null", "", "v", "$long", "$utf", "$edge">>)
Msg(x) == PickQ(<<"$null", "$null", "", "not allowed", "$long", "$utf", "$edge">>)
I32(x) == PickQ(<<0, 1, 2, 7, 300, 70000, 2147483647>>)
SI32(x) == PickQ(<<0, 1, -1, 300, 70000, 2147483647, "#-2147483648">>)
I64(x) == PickQ(<<0, 1, -1, 70000, "#4294967296", "#9223372036854775807", "#-9223372036854775808", "#1099511627776">>)
I8(x) == PickQ(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 127, 3, 2>>)
Len0(x) == PickQ(<<0, 1, 1, 2, 3, 5>>)
Er(E) == IF E THEN PickQ(<<0, 0, 0, 3, 7, 16, 29, 36, 41, 68, -1>>) ELSE 0

L(k, F(_)) == [i \in 1..k |-> F(i)]
DNames(k) == [i \in 1..k |-> Names[i]]                         \* distinct
Ints(x) == L(Len0(0), LAMBDA i : PickQ(<<0, 1, 2, 3, 5, 1000, 2147483647>>))
Reps(x) == PickQ(<< <<>>, <<1>>, <<1, 2>>, <<2, 1, 3>>, <<3, 3>>, <<5>> >>)

(* ------------------------------------------------------------------ layout *)
Ids(x) == PickQ(<< <<1>>, <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3>>, <<1, 7>>, <<1, 2, 3, 1001>>, <<0, 1, 2>>, <<1, 2, 3, 4, 5>> >>)
In(ids) == PickQ(ids)
Sub(ids) == LET k == Pick(1..Len(ids)) IN LET o == Pick(0..(Len(ids) - 1)) IN
            [i \in 1..k |-> ids[((i + o) % Len(ids)) + 1]]
PNums(x) == PickQ(<< <<0>>, <<0, 1>>, <<0, 1, 2>>, <<1, 0>>, <<2, 0, 1, 3>>, <<0, 1, 2, 3, 4, 5, 6, 7>> >>)
MkPart(ids, p) ==
  LET r == Sub(ids) IN LET m == PickQ(<<0, 0, 0, 1>>) IN
  [p |-> p, leader |-> IF m = 0 THEN In(ids) ELSE ids[1], reps |-> r, isr |-> Sub(ids), start |-> Pick(0..5), end |-> PickQ(<<5, 9, 70000, "#4294967300">>)]
Topic(ids, t) == LET q == PNums(0) IN [t |-> t, internal |-> Chance(20), parts |-> [i \in 1..Len(q) |-> MkPart(ids, q[i])]]
Topics(ids) == LET names == PickQ(<< <<"t1">>, <<"t1", "t2">>, <<"t1", "t2", "t3">>, <<"t1", "t2", "$utf", "$long">> >>) IN
               [i \in 1..Len(names) |-> Topic(ids, names[i])]
GNames == <<"g1", "g2", "g3", "$utf", "$long">>
GroupsL(ids) == [i \in 1..Len(GNames) |-> [g |-> GNames[i], n |-> In(ids)]]

(* ---------------------------------------------------------------- versions *)
Multi == <<"ListOffsets", "Metadata", "OffsetCommit", "OffsetFetch", "ListGroups", "DescribeAcls", "CreateAcls", "DeleteAcls",
           "CreatePartitions", "Produce", "Fetch">>
Vs(api) ==
  CASE api = "Produce" -> {0, 9}          [] api = "Fetch" -> {0, 7, 10}
    [] api = "ListOffsets" -> {0, 1}      [] api = "Metadata" -> {1, 4, 7}
    [] api = "OffsetCommit" -> {0, 2}     [] api = "OffsetFetch" -> {0, 1}
    [] api = "ListGroups" -> 0..5         [] api = "DescribeAcls" -> 0..2
    [] api = "CreateAcls" -> 0..3         [] api = "DeleteAcls" -> 0..3
    [] OTHER -> {0, 2}
Range(api) == LET v == Pick(Vs(api)) IN [api |-> api, lo |-> Pick(0..v), hi |-> Pick(v..(v + 4))]
Apis(x) == [i \in 1..Len(Multi) |-> Range(Multi[i])]
Single(x) == << [api |-> "DeleteTopics", lo |-> 0, hi |-> Pick(0..6)], [api |-> "CreateTopics", lo |-> 0, hi |-> Pick(0..7)],
                [api |-> "DescribeConfigs", lo |-> 0, hi |-> Pick(0..4)], [api |-> "DescribeLogDirs", lo |-> 0, hi |-> Pick(0..4)] >>
ApisFor(ids) == [i \in 1..Len(ids) |-> [node |-> ids[i], apis |-> Apis(0) \o Single(0)]]

(* ----------------------------------------------------------------- answers *)
AGroup(i) == [group |-> Str(0), protocol_type |-> PickQ(<<"consumer", "", "connect">>), group_state |-> PickQ(<<"Stable", "Empty", "">>),
              group_type |-> PickQ(<<"classic", "consumer", "">>)]
AnsGroups(E) == [throttle |-> I32(0), error |-> Er(E), groups |-> L(Len0(0), AGroup)]
ALogPart(i) == [index |-> I32(0), size |-> I64(0), offset_lag |-> I64(0), is_future |-> Chance(40)]
ALogTopic(i) == [name |-> PickQ(<<"t1", "t2", "other", "$utf">>), partitions |-> L(Len0(0), ALogPart)]
ALogDir(E) == [error |-> PickQ(IF E THEN <<0, 0, 56>> ELSE <<0>>), log_dir |-> PickQ(<<"/data/1", "", "$long">>), topics |-> L(Len0(0), ALogTopic)]
AnsLogDirs(E) == [throttle |-> I32(0), results |-> L(Len0(0), LAMBDA i : ALogDir(E))]
AnsNamed(E) == L(Len0(0), LAMBDA i : [name |-> Str(0), error |-> Er(E)])
AnsNamedMsg(E) == L(Len0(0), LAMBDA i : [name |-> Str(0), error |-> Er(E), message |-> Msg(0)])
AAcl(i) == [principal |-> Str(0), host |-> Str(0), operation |-> I8(0), permission |-> I8(0)]
AAclRes(i) == [resource_type |-> I8(0), resource_name |-> Str(0), pattern_type |-> I8(0), acls |-> L(Len0(0), AAcl)]
AnsAcls(E) == [throttle |-> I32(0), error |-> Er(E), message |-> Msg(0), resources |-> L(Len0(0), AAclRes)]
AMatch(E) == [error |-> Er(E), message |-> Msg(0), resource_type |-> I8(0), resource_name |-> Str(0), pattern_type |-> I8(0),
              principal |-> Str(0), host |-> Str(0), operation |-> I8(0), permission |-> I8(0)]
AnsDelAcls(E) == [throttle |-> I32(0),
                  results |-> L(Len0(0), LAMBDA i : [error |-> Er(E), message |-> Msg(0), acls |-> L(Len0(0), LAMBDA j : AMatch(E))])]
AConfig(i) == [name |-> Str(0), value |-> NStr(0), read_only |-> Chance(50), is_default |-> Chance(50), is_sensitive |-> Chance(50)]
AnsConfigs(E) == [throttle |-> I32(0),
                  results |-> L(Len0(0), LAMBDA i : [error |-> Er(E), message |-> Msg(0), type |-> I8(0), name |-> Str(0), configs |-> L(Len0(0), AConfig)])]
AnsAlter(E) == [throttle |-> I32(0), responses |-> L(Len0(0), LAMBDA i : [error |-> Er(E), message |-> Msg(0), type |-> I8(0), name |-> Str(0)])]
AnsListRe(E) == [throttle |-> I32(0), error |-> Er(E), message |-> Msg(0),
                 topics |-> L(Len0(0), LAMBDA i : [name |-> Str(0), partitions |-> L(Len0(0), LAMBDA j :
                             [index |-> I32(0), replicas |-> Ints(0), adding |-> Ints(0), removing |-> Ints(0)])])]
AnsAlterRe(E) == [throttle |-> I32(0), error |-> IF E /\ Chance(30) THEN 41 ELSE 0, message |-> Msg(0),
                  responses |-> L(Len0(0), LAMBDA i : [name |-> Str(0), partitions |-> L(Len0(0), LAMBDA j :
                                 [index |-> I32(0), error |-> Er(E), message |-> Msg(0)])])]
AnsElect(E) == [throttle |-> I32(0), results |-> L(Len0(0), LAMBDA i : [topic |-> Str(0), partitions |-> L(Len0(0), LAMBDA j :
                                 [index |-> I32(0), error |-> Er(E), message |-> Msg(0)])])]
AMember(pt) == [member |-> Str(0), client_id |-> Str(0), client_host |-> Str(0), metadata |-> PickQ(<<"$hex:", "$hex:0001", "$hex:00000001000174ffffffff">>),
                assignment |-> IF pt = "consumer" THEN PickQ(<<"$hex:", "$asg:t1:0,1", "$asg:t2:", "$asg:t3:7">>)
                               ELSE PickQ(<<"$hex:", "$hex:00", "$hex:ffffffffff", "$hex:0000000000010002">>)]
ADesc(E) == LET pt == PickQ(<<"consumer", "consumer", "", "connect">>) IN
            [error |-> Er(E), group |-> Str(0), state |-> PickQ(<<"Stable", "Dead", "">>), protocol_type |-> pt,
             protocol |-> PickQ(<<"range", "">>), members |-> IF pt = "" THEN <<>> ELSE L(Len0(0), LAMBDA i : AMember(pt))]
AnsDescribe(E) == [groups |-> L(Len0(0), LAMBDA i : ADesc(E))]
AnsCommit(E) == [topics |-> L(Len0(0), LAMBDA i : [name |-> Str(0), partitions |-> L(Len0(0), LAMBDA j : [index |-> I32(0), error |-> Er(E)])])]
AnsOffFetch(E) == [topics |-> L(Len0(0), LAMBDA i : [name |-> Str(0), partitions |-> L(Len0(0), LAMBDA j :
                   [index |-> I32(0), offset |-> I64(0), metadata |-> NStr(0), error |-> Er(E)])])]
AnsFor(op, E) ==
  CASE op \in {"ListGroups", "RawListGroups", "AskListGroups"} -> AnsGroups(E)
    [] op = "DescribeLogDirs" -> AnsLogDirs(E)
    [] op = "DeleteTopics" -> [responses |-> AnsNamed(E)]
    [] op \in {"CreateTopic", "CreateTopics", "RawCreateTopics"} -> [topics |-> AnsNamed(E)]
    [] op \in {"CreatePartitions", "RawCreatePartitions"} -> [throttle |-> I32(0), results |-> AnsNamedMsg(E)]
    [] op = "DescribeAcls" -> AnsAcls(E)
    [] op = "CreateAcls" -> [throttle |-> I32(0), results |-> L(Len0(0), LAMBDA i : [error |-> Er(E), message |-> Msg(0)])]
    [] op = "DeleteAcls" -> AnsDelAcls(E)
    [] op \in {"DescribeConfigs", "RawDescribeConfigs"} -> AnsConfigs(E)
    [] op \in {"AlterConfigs", "IncrementalAlterConfigs"} -> AnsAlter(E)
    [] op = "ListPartitionReassignments" -> AnsListRe(E)
    [] op = "AlterPartitionReassignments" -> AnsAlterRe(E)
    [] op = "ElectLeaders" -> AnsElect(E)
    [] op = "DescribeGroups" -> AnsDescribe(E)
    [] op = "OffsetCommit" -> AnsCommit(E)
    [] op = "OffsetFetch" -> AnsOffFetch(E)
    [] OTHER -> [none |-> 0]

(* --------------------------------------------------------------- arguments *)
Shuf(q) == PickQ(<<q, [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]>>)
GSub(x) == LET k == Pick(0..Len(GNames)) IN Shuf(SubSeq(GNames, 1, k))
Acl(names) == [resource_type |-> I8(0), resource_name |-> names, pattern_type |-> I8(0), principal |-> PickQ(<<"User:a", "", "$long", "$utf", "$edge">>),
               host |-> PickQ(<<"*", "", "$long">>), operation |-> I8(0), permission |-> I8(0)]
Filter(x) == [resource_type |-> I8(0), resource_name |-> NStr(0), pattern_type |-> I8(0), principal |-> NStr(0), host |-> NStr(0),
              operation |-> I8(0), permission |-> I8(0)]
Assign(i) == [p |-> Pick(0..4), reps |-> Reps(0)]
CTopic(name) == [name |-> name, num |-> SI32(0), repl |-> PickQ(<<-1, 1, 3, 32767>>), assign |-> L(PickQ(<<0, 0, 1, 3>>), Assign),
                 configs |-> L(PickQ(<<0, 0, 1, 3>>), LAMBDA i : [k |-> Str(0), v |-> Str(0)])]
CParts(name) == [name |-> name, count |-> SI32(0), noassign |-> FALSE, assign |-> L(Len0(0), LAMBDA i : Reps(0))]
CPartsN(name) == [name |-> name, count |-> SI32(0), noassign |-> TRUE, assign |-> "$null"]
CPartsAny(name) == IF Chance(40) THEN CPartsN(name) ELSE CParts(name)
Distinct(k, F(_)) == [i \in 1..k |-> F(Names[i])]
Key(x) == IF Chance(35) THEN [type |-> I8(0), name |-> Name(0), nokeys |-> TRUE, keys |-> "$null"]
          ELSE [type |-> I8(0), name |-> Name(0), nokeys |-> FALSE, keys |-> L(Len0(0), Str)]
Entry(i) == [type |-> PickQ(<<2, 4>>), name |-> PickQ(<<"t1", "1", "$long", "$utf">>), k |-> "k" \o ToString(i), v |-> Str(0)]
TP(i) == [t |-> PickQ(<<"t1", "t2", "$long", "$utf", "$edge">>), p |-> PickQ(<<0, 100, 2147483600>>) + i]
TPs(k) == L(k, TP)
RTP(i) == LET c == Chance(30) IN [t |-> PickQ(<<"t1", "t2", "$long", "$utf", "$edge">>), p |-> PickQ(<<0, 100, 2147483600>>) + i, cancel |-> c,
           reps |-> IF c THEN "$null" ELSE Reps(0)]
CTP(i) == [t |-> PickQ(<<"t1", "t2", "$long", "$utf">>), p |-> PickQ(<<0, 100>>) + i, offset |-> I64(0), metadata |-> Str(0)]

Args(op, ids, topics) ==
  CASE op = "ListGroups" -> [x |-> 0]
    [] op \in {"RawListGroups", "AskListGroups"} ->
         [node |-> In(ids), states |-> L(Len0(0), Str), types |-> L(Len0(0), Str), reuse |-> Chance(60)]
    [] op = "DescribeLogDirs" ->
         LET m == PickQ(<<1, 1, 1, 2>>) IN
         [all |-> m = 2, topics |-> IF m = 2 THEN <<>> ELSE Shuf(SubSeq([i \in 1..Len(topics) |-> topics[i].t], 1, Pick(1..Len(topics))))]
    [] op = "DeleteTopics" -> [names |-> L(Len0(0), Name), timeout |-> SI32(0)]
    [] op = "CreateTopic" -> [name |-> Name(0), num |-> SI32(0), repl |-> PickQ(<<-1, 1, 3, 32767>>), timeout |-> I32(0)]
    [] op = "CreateTopics" -> [names |-> IF Chance(10) THEN <<"a", "a">> ELSE DNames(Pick(0..5)), num |-> SI32(0), repl |-> PickQ(<<-1, 1, 3>>), timeout |-> I32(0)]
    [] op = "RawCreateTopics" -> [node |-> In(ids), topics |-> Distinct(Pick(0..4), CTopic), timeout |-> I32(0)]
    [] op = "CreatePartitions" -> CPartsAny(Name(0)) @@ [timeout |-> I32(0), validate |-> Chance(50)]
    [] op = "RawCreatePartitions" -> [node |-> In(ids), topics |-> L(Len0(0), LAMBDA i : CPartsAny(Name(0))), timeout |-> I32(0), validate |-> Chance(50)]
    [] op = "DeleteGroups" -> [groups |-> GSub(0)]
    [] op = "RawDeleteGroups" -> [node |-> In(ids), groups |-> L(Len0(0), Str)]
    [] op = "DescribeAcls" -> Filter(0)
    [] op = "CreateAcls" -> [creations |-> L(Len0(0), LAMBDA i : Acl(Name(0)))]
    [] op = "DeleteAcls" -> [filters |-> L(Len0(0), Filter)]
    [] op = "DescribeConfigs" ->
         LET ty == PickQ(<<"topic", "broker", "broker", "broker_logger", "group">>) IN
         LET nk == Chance(30) IN
         [type |-> ty, name |-> IF ty \in {"broker", "broker_logger"} THEN (IF Chance(8) THEN "x" ELSE ToString(In(ids))) ELSE Name(0),
          nokeys |-> nk, keys |-> IF nk THEN "$null" ELSE L(Len0(0), Str)]
    [] op = "RawDescribeConfigs" -> [node |-> In(ids), resources |-> L(Len0(0), Key)]
    [] op \in {"AlterConfigs", "IncrementalAlterConfigs"} -> [node |-> In(ids), entries |-> L(Len0(0), Entry), validate |-> Chance(50)]
    [] op = "ListPartitionReassignments" -> [timeout |-> SI32(0), tps |-> TPs(Pick(0..4))]
    [] op = "ElectLeaders" -> [timeout |-> SI32(0), tps |-> TPs(Pick(0..4))]
    [] op = "AlterPartitionReassignments" -> [timeout |-> SI32(0), tps |-> L(Pick(0..4), RTP)]
    [] op = "DescribeGroups" -> [node |-> In(ids), groups |-> L(Len0(0), Str)]
    [] op = "Offsets" ->
         [topic |-> IF Chance(7) THEN "nosuch" ELSE PickQ(topics).t, pid |-> PickQ(<<-1, -1, 0, 1, 2>>),
          time |-> PickQ(<<-1, -2, "#1700000000000", "#1700000000001">>), n |-> PickQ(<<1, 1, 5>>)]
    [] op = "Meta" -> [topics |-> PickQ(<< <<>>, <<"t1">>, <<"t2", "t1">>, <<"nosuch">>, <<"t1", "$huge">> >>)]
    [] op = "FindCoordinator" -> [group |-> PickQ(GNames)]
    [] op = "OffsetCommit" -> [node |-> In(ids), group |-> Str(0), generation |-> SI32(0), member |-> Str(0), retention |-> I64(0), tps |-> L(Len0(0), CTP)]
    [] op = "OffsetFetch" -> [node |-> In(ids), group |-> Str(0), tps |-> TPs(Len0(0))]
    [] OTHER -> [topic |-> PickQ(topics).t, pid |-> PickQ(<<0, 1>>), n |-> Pick(1..3), magic |-> 2]

Ops02 == <<"ListGroups", "DescribeLogDirs", "DescribeLogDirs", "DeleteTopics", "CreateTopic", "CreateTopics", "CreatePartitions", "DeleteGroups",
           "DeleteGroups", "DescribeAcls", "CreateAcls", "DeleteAcls", "DescribeConfigs", "DescribeConfigs", "ListPartitionReassignments",
           "AlterPartitionReassignments", "ElectLeaders", "Offsets", "Offsets", "Offsets">>
Ops03 == <<"ListGroups", "RawListGroups", "DescribeLogDirs", "DeleteTopics", "CreateTopic", "CreateTopics", "RawCreateTopics", "CreatePartitions",
           "RawCreatePartitions", "DeleteGroups", "RawDeleteGroups", "DescribeAcls", "CreateAcls", "DeleteAcls", "DescribeConfigs", "RawDescribeConfigs",
           "AlterConfigs", "IncrementalAlterConfigs", "ListPartitionReassignments", "AlterPartitionReassignments", "ElectLeaders", "DescribeGroups",
           "Offsets", "Meta", "FindCoordinator", "OffsetCommit", "OffsetFetch">>
OpsB == <<"RawListGroups", "AskListGroups", "RawListGroups", "DescribeAcls", "CreateAcls", "DeleteAcls", "CreatePartitions", "RawCreatePartitions",
          "Offsets", "Meta", "OffsetCommit", "OffsetFetch", "ListGroups", "Consume", "Produce", "DeleteTopics">>
Op(x) == PickQ(CASE Focus = "M02" -> Ops02 [] Focus = "B03" -> OpsB [] OTHER -> Ops03)

Call(op, ids, topics, E) ==
  LET base == [op |-> op, a |-> Args(op, ids, topics), ans |-> [i \in 1..Len(ids) |-> [node |-> ids[i], body |-> AnsFor(op, E)]]] IN
  CASE op \in {"DeleteGroups", "RawDeleteGroups"} -> base @@ [throttle |-> I32(0), codes |-> [i \in 1..Len(GNames) |-> [group |-> GNames[i], code |-> IF E THEN PickQ(<<0, 0, 68, 69>>) ELSE 0]]]
    [] op = "Offsets" -> base @@ [perr |-> IF E /\ Chance(40) THEN << [p |-> Pick(0..1), code |-> PickQ(<<6, 3>>)] >> ELSE <<>>,
                                  more |-> PickQ(<< <<>>, <<>>, << "#4294967300", 70000, 5>>, <<7>> >>), stamp |-> I64(0)]
    [] OTHER -> base

Apart(ids, topics) ==
  PickQ(<< [op |-> "move", a |-> [t |-> PickQ(topics).t, i |-> Pick(0..7), n |-> In(ids)]],
           [op |-> "ctl", a |-> [n |-> In(ids)]],
           [op |-> "coord", a |-> [g |-> PickQ(GNames), n |-> In(ids)]] >>)
Change(ids) == [op |-> "apis", a |-> [node |-> In(ids), apis |-> Apis(0)]]

RECURSIVE Calls(_, _, _)
Calls(k, ids, topics) ==
  IF k = 0 THEN <<>>
  ELSE LET rest == Calls(k - 1, ids, topics) IN
       LET c == Call(Op(0), ids, topics, Chance(IF Focus \in {"M03", "M02"} THEN 15 ELSE 30)) IN
       LET m == Chance(IF Focus = "M02" THEN 35 ELSE 10) IN
       LET ch == Focus = "B03" /\ Chance(25) IN
       rest \o (IF ch THEN <<Change(ids)>> ELSE IF m THEN <<Apart(ids, topics)>> ELSE <<>>) \o <<c>>

Fault(ids) == [api |-> PickQ(<<"DeleteTopics", "CreateTopics", "DescribeLogDirs", "ListGroups", "DeleteGroups", "DescribeAcls", "CreateAcls",
                              "DescribeConfigs", "ListOffsets", "ElectLeaders", "AlterPartitionReassignments", "ListPartitionReassignments">>),
               n |-> Pick(1..2), upto |-> 0, act |-> PickQ(<<"drop", "rst", "cut">>), arg |-> PickQ(<<3, 9, -60>>), node |-> PickQ(<<0, 1>>)]
Seg(x) == [api |-> "*", n |-> Pick(1..6), upto |-> 0, act |-> "seg", arg |-> Pick({1, 3, 7}), node |-> 0]

Make ==
  \E ids \in One(Ids(0)) :
  \E topics \in One(Topics(ids)), groups \in One(GroupsL(ids)) :
  \E calls \in One(Calls(Pick(2..5), ids, topics)),
     ranged \in One(Focus = "B03" \/ Chance(40)),
     fl \in One(IF Focus # "M03" /\ Focus # "B03" /\ Chance(20) THEN <<Fault(ids)>> ELSE IF Chance(15) THEN <<Seg(0)>> ELSE <<>>) :
    script' =
      [ rules |-> fl,
        p |-> [ ids |-> ids, ctl |-> In(ids), clusterid |-> PickQ(<<"$null", "c-1", "$long", "">>), tagged |-> Chance(30),
                client |-> PickQ(<<"v", "", "$long", "$utf">>), topics |-> topics, groups |-> groups,
                apis |-> IF ranged THEN ApisFor(ids) ELSE <<>>, calls |-> calls ] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
