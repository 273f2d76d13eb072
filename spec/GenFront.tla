------------------------------ MODULE GenFront ------------------------------
(* Command lines and HTTP requests to try on the real front ends.             *)
(* Layouts, versions and answers are GenAdmin's.                              *)
EXTENDS Rand, Json, FiniteSets
CONSTANTS N, Focus
VARIABLES n, script
A == INSTANCE GenAdmin

One(x) == {x}
Cli == Focus = "T02"
Name(x) == PickQ(<<"t1", "t2", "t3", "t1", "a.b-c_d", "$long", "$utf", "$edge", "x y">>)
Free(x) == PickQ(<<"v", "x y", "$long", "$utf", "$sp", "$edge", "User:*", "127.0.0.1", "a\"b", "c\\d", "{\"e\":1}", "'q'", "-f", "g\\u0041", "h%20i", "*">>)
Seg1(x) == PickQ(<<"t1", "retention.ms", "a.b-c_d", "$utf", "x y", "100", "-1", "a=b&c", "50%", "q?x", "$long">>)
Grp(x) == PickQ(<<"g1", "g2", "g3", "$utf", "$long">>)
Tmo(x) == PickQ(<<30000, 30000, 20000, 70000, 2147483647>>)
NFree(x) == IF Chance(35) THEN "$null" ELSE IF Chance(10) THEN "" ELSE Free(0)
Reps(x) == PickQ(<< <<1>>, <<1, 2>>, <<2, 1, 3>>, <<5>>, <<2147483647>> >>)

RT(x) == Pick(0..7)   PT(x) == Pick(0..4)   OP(x) == Pick(0..12)   PM(x) == Pick(0..3)
Filter(x) == [resource_type |-> RT(0), resource_name |-> NFree(0), pattern_type |-> PT(0), principal |-> NFree(0), host |-> NFree(0),
              operation |-> OP(0), permission |-> PM(0)]
Creation(x) == [resource_type |-> RT(0), resource_name |-> Free(0), pattern_type |-> PT(0), principal |-> Free(0), host |-> Free(0),
                operation |-> OP(0), permission |-> PM(0)]
TName(x) == PickQ(<<"topic", "topic", "broker", "broker_logger">>)
TNo(t) == CASE t = "topic" -> 2 [] t = "broker" -> 4 [] OTHER -> 8
RTP(i) == LET c == Chance(30) IN [t |-> PickQ(<<"t1", "t2", "$long", "$utf", "a\"b">>), p |-> PickQ(<<0, 100, 2147483600>>) + i, cancel |-> c,
           reps |-> IF c THEN "$null" ELSE PickQ(<< <<>>, <<1>>, <<1, 2>>, <<2, 1, 3>> >>)]
TP(i) == [t |-> PickQ(<<"t1", "t2", "$long", "$utf", "a\"b">>), p |-> PickQ(<<0, 100, 2147483600>>) + i]
L(k, F(_)) == [i \in 1..k |-> F(i)]

Args(op, ids, topics) ==
  CASE op = "ListGroups" -> [x |-> 0]
    [] op = "DescribeLogDirs" ->
         LET all == Chance(25) IN
         [all |-> all, topics |-> IF all THEN <<>> ELSE A!Shuf(SubSeq([i \in 1..Len(topics) |-> topics[i].t], 1, Pick(1..Len(topics))))]
    [] op = "DeleteTopics" -> [names |-> L(Pick(1..3), Name), timeout |-> 30000]
    [] op = "CreateTopic" -> [name |-> Name(0), num |-> PickQ(<<-1, 1, 8, 70000, 2147483647>>), repl |-> PickQ(<<-1, 1, 3, 32767>>), timeout |-> Tmo(0)]
    [] op = "RawCreateTopics" ->
         LET k == Pick(1..4) IN
         [topics |-> << [name |-> Name(0), num |-> -1, repl |-> -1, configs |-> <<>>, assign |-> [i \in 1..k |-> [p |-> i - 1, reps |-> Reps(0)]]] >>,
          timeout |-> Tmo(0)]
    [] op = "CreatePartitions" ->
         LET na == ~Cli \/ Chance(50) IN
         [name |-> Name(0), count |-> PickQ(<<0, 1, 8, 70000, 2147483647>>), timeout |-> Tmo(0), validate |-> IF Cli THEN Chance(50) ELSE FALSE,
          noassign |-> na, assign |-> IF na THEN "$null" ELSE L(Pick(1..4), LAMBDA i : Reps(0))]
    [] op = "DescribeAcls" -> Filter(0)
    [] op = "CreateAcls" -> [creations |-> L(IF Cli THEN 1 ELSE Pick(0..3), Creation)]
    [] op = "DeleteAcls" -> [filters |-> L(IF Cli THEN 1 ELSE Pick(0..3), Filter)]
    [] op = "DescribeConfigs" ->
         LET ty == IF Cli THEN TName(0) ELSE PickQ(<<"topic", "broker">>) IN
         LET nk == ~Cli \/ Chance(40) IN
         [type |-> ty, name |-> IF ty = "topic" THEN (IF Cli THEN Free(0) ELSE Seg1(0)) ELSE IF Chance(8) THEN "x" ELSE ToString(A!In(ids)),
          nokeys |-> nk, keys |-> IF nk THEN "$null" ELSE L(Pick(1..3), LAMBDA i : Free(0))]
    [] op = "RawDescribeConfigs" -> [resources |-> << [type |-> 2, name |-> Seg1(0), nokeys |-> FALSE, keys |-> <<Seg1(0)>>] >>]
    [] op = "IncrementalAlterConfigs" ->
         LET ty == IF Cli THEN TName(0) ELSE "topic" IN
         [validate |-> FALSE,
          entries |-> << [tname |-> ty, type |-> TNo(ty), name |-> IF ty # "topic" THEN (IF Chance(8) THEN "x" ELSE IF Chance(8) THEN "" ELSE ToString(A!In(ids))) ELSE IF Cli THEN Free(0) ELSE Seg1(0),
                          k |-> IF Cli THEN Free(0) ELSE Seg1(0), v |-> IF Cli THEN Free(0) ELSE Seg1(0)] >>]
    [] op = "DescribeGroups" -> [groups |-> <<Grp(0)>>]
    [] op = "DeleteGroups" -> [groups |-> SubSeq(A!Shuf(A!GNames), 1, Pick(1..5))]
    [] op \in {"ListPartitionReassignments", "ElectLeaders"} -> [timeout |-> Tmo(0), tps |-> L(Pick(0..4), TP)]
    [] op = "AlterPartitionReassignments" -> [timeout |-> Tmo(0), tps |-> L(Pick(0..4), RTP)]
    [] op = "Meta" -> [topics |-> PickQ(<< <<>>, <<"t1">>, <<"t2", "t1">>, <<"nosuch">>, <<"t1", "$long">>, <<"$utf">> >>)]
    [] op = "Offsets" -> [topic |-> IF Chance(7) THEN "nosuch" ELSE PickQ(topics).t, pid |-> -1,
                          time |-> PickQ(<<-1, -2, "#1700000000000", "#1700000000001">>), n |-> 1]
    [] op = "Pending" -> [topic |-> IF Chance(7) THEN "nosuch" ELSE PickQ(topics).t, group |-> Grp(0), pid |-> -1, time |-> -1, n |-> 1]
    [] op = "Path" -> [method |-> PickQ(<<"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD">>),
                       path |-> PickQ(<<"/", "/health", "/groups", "/nosuch", "/delete-acls", "/topic/t1/config/a/b", "/metadata", "/configs/topic/t1", "//groups", "/groups/">>)]
    [] OTHER -> [x |-> 0]

(* what makes no sense: more of the command line, another body, another query *)
BadCli(op) ==
  CASE op \in {"DescribeAcls", "CreateAcls", "DeleteAcls"} ->
         PickQ(<< <<"--operation", "nosuch">>, <<"--operation", "">>, <<"--resourcetype", "topics">>, <<"--resourcetype", "a\"b">>, <<"--patterntype", "exact">>,
                  <<"--permissiontype", "permit">>, <<"--operation", "13">>, <<"--resourcetype", "4">> >>)
    [] op = "AlterPartitionReassignments" ->
         PickQ(<< <<"-r", "{">>, <<"-r", "[{\"topic\":\"t1\",\"partition\":\"x\"}]">>, <<"-r", "[{\"topic\":\"t1\",\"partition\":4294967296,\"replicas\":[1]}]">>,
                  <<"-r", "">>, <<"-r", "[{\"topic\":\"t1\",\"partition\":0,\"replicas\":1}]">>, <<"--timeout.ms", "x">> >>)
    [] op \in {"ListPartitionReassignments", "ElectLeaders"} ->
         PickQ(<< <<"--data", "{">>, <<"--data", "[{\"topic\":1,\"partition\":0}]">>, <<"--data", "[{\"topic\":\"t1\",\"partition\":4294967297}]">>, <<"--timeout.ms", "x">> >>)
    [] op = "RawCreateTopics" ->
         PickQ(<< <<"--replica-assignment", "1:x">>, <<"--replica-assignment", "1,,2">>, <<"--replica-assignment", "4294967297">>, <<"--replica-assignment", "1:2,4294967298:1">>,
                  <<"--partitions", "3">>, <<"--replication-factor", "2">>, <<"--timeout", "-1">>, <<"--replica-assignment", "1:">> >>)
    [] op = "CreatePartitions" ->
         PickQ(<< <<"--assignments", "1:x">>, <<"--assignments", "1:2,3 4">>, <<"--assignments", ":1">>, <<"--assignments", "4294967297">>, <<"--count", "4294967297">>,
                  <<"--assignments", "1:2,3:">>, <<"--validate-only=maybe">> >>)
    [] op = "CreateTopic" -> PickQ(<< <<"--partitions", "4294967297">>, <<"--replication-factor", "65537">>, <<"--timeout", "4294967297">> >>)
    [] OTHER -> PickQ(<< <<"--nosuch">>, <<"--nosuch=1">> >>)
ByBody == {"AlterPartitionReassignments", "ElectLeaders", "CreatePartitions", "DescribeAcls", "CreateAcls", "DeleteAcls", "DescribeLogDirs", "ListPartitionReassignments"}
BadBody(op) ==
  CASE op \in {"AlterPartitionReassignments"} -> PickQ(<<"{", "", "[{\"topic\":\"t1\",\"partition\":\"x\"}]", "[{\"topic\":\"t1\",\"partition\":4294967296,\"replicas\":[1]}]", "{}">>)
    [] op = "ElectLeaders" -> PickQ(<<"{", "", "[{\"topic\":1,\"partition\":0}]", "[{\"topic\":\"t1\",\"partition\":4294967297}]">>)
    [] op = "ListPartitionReassignments" -> PickQ(<<"{", "[{\"topic\":1,\"partition\":0}]", "{}", "[{\"topic\":\"t1\",\"partition\":4294967297}]">>)
    [] op = "CreatePartitions" -> PickQ(<<"{", "", "{\"topic\":\"t1\",\"count\":\"3\"}", "{\"topic\":\"t1\",\"count\":4294967297,\"timeout\":30000}",
                                          "{\"topic\":\"t1\",\"count\":3,\"timeout\":4294967297}", "{\"topic\":\"t1\",\"count\":3,\"timeout\":-1}", "[]">>)
    [] op = "DescribeAcls" -> PickQ(<<"{", "", "{\"Operation\":\"nosuch\"}", "{\"ResourceType\":\"topics\"}", "[]", "{\"PermissionType\":\"permit\"}", "{\"ResourceName\":1}">>)
    [] op = "DescribeLogDirs" -> PickQ(<<"{", "", "{\"topics\":\"t1\"}", "{\"topics\":[1]}">>)
    [] OTHER -> PickQ(<<"{", "", "[{\"Operation\":\"nosuch\"}]", "[{\"ResourceType\":\"topics\",\"Operation\":\"read\"}]", "{}", "[{\"PatternType\":\"exact\"}]", "[{\"Principal\":1}]">>)
ByTimeout == {"AlterPartitionReassignments", "ElectLeaders", "ListPartitionReassignments"}
BadQuery(op) ==
  CASE op \in ByTimeout -> PickQ(<< [timeout |-> "x"], [timeout |-> "4294967297"], [timeout |-> "1e3"], [bootstrap |-> "$null"] >>)
    [] op = "Offsets" -> PickQ(<< [timestamp |-> "$null"], [timestamp |-> "x"], [timestamp |-> "99999999999999999999"], [bootstrap |-> "$null"] >>)
    [] OTHER -> PickQ(<< [bootstrap |-> "$null"], [bootstrap |-> "127.0.0.1:1"], [bootstrap |-> "nonsense"] >>)
Bad(op) == IF Cli THEN [argv |-> BadCli(op)]
           ELSE IF op \in ByBody /\ Chance(65) THEN [body |-> BadBody(op)] ELSE [query |-> BadQuery(op)]

(* answers whose enumerations have names                                      *)
AAcl(i) == [principal |-> A!Str(0), host |-> A!Str(0), operation |-> OP(0), permission |-> PM(0)]
AMatch(E) == [error |-> A!Er(E), message |-> A!Msg(0), resource_type |-> RT(0), resource_name |-> A!Str(0), pattern_type |-> PT(0)] @@ AAcl(0)
Answer(op, E) ==
  CASE op = "DescribeAcls" -> [throttle |-> A!I32(0), error |-> A!Er(E), message |-> A!Msg(0), resources |-> L(A!Len0(0), LAMBDA i :
                                [resource_type |-> RT(0), resource_name |-> A!Str(0), pattern_type |-> PT(0), acls |-> L(A!Len0(0), AAcl)])]
    [] op = "DeleteAcls" -> [throttle |-> A!I32(0), results |-> L(A!Len0(0), LAMBDA i : [error |-> A!Er(E), message |-> A!Msg(0), acls |-> L(A!Len0(0), LAMBDA j : AMatch(E))])]
    [] OTHER -> A!AnsFor(op, E)

OpsCli == <<"ListGroups", "DescribeLogDirs", "DeleteTopics", "CreateTopic", "RawCreateTopics", "CreatePartitions", "CreatePartitions", "DescribeAcls", "CreateAcls", "DeleteAcls", "DeleteAcls",
            "DescribeConfigs", "IncrementalAlterConfigs", "IncrementalAlterConfigs", "DescribeGroups", "DeleteGroups", "ListPartitionReassignments", "AlterPartitionReassignments",
            "ElectLeaders", "Meta">>
OpsApi == <<"Meta", "Offsets", "Offsets", "DescribeLogDirs", "DescribeLogDirs", "RawDescribeConfigs", "DescribeConfigs", "IncrementalAlterConfigs", "ListGroups", "DescribeGroups", "Pending", "Pending",
            "AlterPartitionReassignments", "ElectLeaders", "ListPartitionReassignments", "ListPartitionReassignments", "CreatePartitions", "DescribeAcls", "CreateAcls", "DeleteAcls">>
Op(x) == IF Cli THEN PickQ(OpsCli) ELSE IF Focus = "H02" /\ Chance(50) THEN "Path" ELSE PickQ(OpsApi)

(* credentials: how they are given, and what that amounts to                  *)
Creds(acc) ==
  PickQ(<< [header |-> "basic " \o acc, auth |-> "right"], [header |-> "basic " \o acc, auth |-> "right"], [header |-> "", auth |-> "none"], [header |-> "", auth |-> "none"],
           [header |-> "basic " \o acc \o "x", auth |-> "wrong"], [header |-> "basic x" \o acc, auth |-> "wrong"], [header |-> "basic :", auth |-> "wrong"],
           [header |-> "basic admin", auth |-> "wrong"], [header |-> "basic admin:", auth |-> "wrong"], [header |-> "basic :pw", auth |-> "wrong"],
           [header |-> "Bearer abc", auth |-> "wrong"], [header |-> "Basic", auth |-> "wrong"], [header |-> "Basic !!!", auth |-> "wrong"],
           [header |-> acc, auth |-> "wrong"], [header |-> "basic ADMIN:PW", auth |-> "wrong"], [header |-> "Basic " \o acc, auth |-> "wrong"],
           [header |-> "basic other:pw", auth |-> "wrong"], [header |-> "basic admin:p", auth |-> "wrong"], [header |-> "basic admin:pw:", auth |-> "wrong"] >>)

Call(op, ids, topics, E, acc) ==
  LET base == [op |-> op, a |-> Args(op, ids, topics), alt |-> Chance(50), ans |-> [i \in 1..Len(ids) |-> [node |-> ids[i], body |-> Answer(op, E)]]]
              @@ (IF Focus = "H02" THEN Creds(acc) ELSE [header |-> "basic " \o acc, auth |-> "right"]) IN
  CASE op = "DeleteGroups" -> base @@ [throttle |-> A!I32(0), codes |-> [i \in 1..Len(A!GNames) |-> [group |-> A!GNames[i], code |-> IF E THEN PickQ(<<0, 0, 68, 69>>) ELSE 0]]]
    [] op = "Offsets" -> base @@ [perr |-> IF E /\ Chance(40) THEN << [p |-> Pick(0..1), code |-> PickQ(<<6, 3>>)] >> ELSE <<>>,
                                  more |-> PickQ(<< <<>>, <<>>, << "#4294967300", 70000, 5>>, <<7>> >>), stamp |-> A!I64(0)]
    [] op = "Pending" -> base @@ [perr |-> IF E /\ Chance(40) THEN << [p |-> Pick(0..1), code |-> PickQ(<<6, 3>>)] >> ELSE <<>>,
                                  com |-> L(Pick(0..4), LAMBDA i : [p |-> i - 1, off |-> PickQ(<<0, 1, 3, 5, -1, 70000>>), code |-> IF E THEN PickQ(<<0, 0, 16, 30>>) ELSE 0])]
    [] OTHER -> base
Any1(op, ids, topics, E, acc) ==
  IF Focus # "H02" /\ Chance(15) THEN Bad(op) @@ [bad |-> TRUE] @@ Call(op, ids, topics, FALSE, acc) ELSE Call(op, ids, topics, E, acc)

RECURSIVE Calls(_, _, _, _)
Calls(k, ids, topics, acc) ==
  IF k = 0 THEN <<>>
  ELSE LET rest == Calls(k - 1, ids, topics, acc) IN
       LET c == Any1(Op(0), ids, topics, Chance(25), acc) IN
       rest \o (IF Chance(15) THEN <<A!Apart(ids, topics)>> ELSE <<>>) \o <<c>>

Make ==
  \E ids \in One(A!Ids(0)), acc \in One(PickQ(<<"admin:pw", "admin:pw", "admin:p:w:x", "u:">>)) :
  \E topics \in One(A!Topics(ids)), groups \in One(A!GroupsL(ids)) :
  \E calls \in One(Calls(IF Cli THEN Pick(1..3) ELSE Pick(4..9), ids, topics, acc)),
     ranged \in One(Chance(35)), guarded \in One(~Cli /\ Chance(IF Focus = "H02" THEN 90 ELSE 15)), second \in One(Focus = "H01" /\ Chance(5)),
     fl \in One(IF Chance(25) THEN <<A!Fault(ids)>> ELSE IF Chance(15) THEN <<A!Seg(0)>> ELSE <<>>) :
    script' =
      [ rules |-> fl,
        p |-> [ front |-> IF Cli THEN "cli" ELSE "api", ids |-> ids, ctl |-> A!In(ids), clusterid |-> PickQ(<<"$null", "c-1", "$long", "">>), tagged |-> Chance(30),
                client |-> "healer", topics |-> topics, groups |-> groups, guarded |-> guarded, auth |-> IF guarded THEN acc ELSE "",
                getallowed |-> Chance(40), cors |-> Chance(30),
                apis |-> IF ranged THEN A!ApisFor(ids) ELSE <<>>,
                calls |-> (IF second THEN << [op |-> "Second", a |-> [x |-> 0], auth |-> "right"] >> ELSE <<>>) \o calls ] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
