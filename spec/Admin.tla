------------------------------- MODULE Admin -------------------------------
(* Administrative and lookup calls as the caller and the brokers see them:    *)
(* a call, the requests it makes brokers receive, their answers, the return.  *)
(*                                                                            *)
(*   AMay(s, e)   the specification allows event e in state s                 *)
(*   ADo(s, e)    the state after e                                           *)
(*                                                                            *)
(* In arguments, bodies and values every leaf is a string ("5", "true",       *)
(* "<null>"); a null list of structures is NullS, of plain values NullL.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
G(p, c) == (Prop = p \/ Prop = "ALL") => c
G2(P, c) == (Prop \in P \cup {"ALL"}) => c

SeqSet(q) == {q[i] : i \in 1..Len(q)}
Null == "<null>"
NullS == << [null |-> Null] >>
NullL == << Null >>
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

NoCall == [op |-> "none"]
AStart(cfg) ==
  [ lay |-> [ctl |-> 0, nodes |-> <<>>, topics |-> <<>>, groups |-> <<>>],
    call |-> NoCall,
    asked |-> <<>>,       \* non-lookup requests of this call
    ans |-> <<>>,         \* all answers during this call
    codes |-> {}, lost |-> FALSE, want |-> <<>> ]

(* ---------------------------------------------------------------- versions *)
Vers(api) ==
  CASE api = "Produce" -> {0, 9}          [] api = "Fetch" -> {0, 7, 10}
    [] api = "ListOffsets" -> {0, 1}      [] api = "Metadata" -> {1, 4, 7}
    [] api = "OffsetCommit" -> {0, 2}     [] api = "OffsetFetch" -> {0, 1}
    [] api = "ListGroups" -> 0..5         [] api = "DescribeAcls" -> 0..2
    [] api = "CreateAcls" -> 0..3         [] api = "DeleteAcls" -> 0..3
    [] api = "CreatePartitions" -> {0, 2} [] api = "SaslHandshake" -> {0, 1}
    [] OTHER -> {0}
Common(api, lo, hi) == Vers(api) \cap lo..hi
VersionOK(e) ==
  /\ e.ok
  /\ LET C == Common(e.api, e.lo, e.hi) IN C # {} => e.ver = Max(C)

(* ----------------------------------------------------------------- routing *)
Lookups == {"Metadata", "FindCoordinator", "SaslHandshake", "SaslAuthenticate"}
CtlOps == {"DeleteTopics", "CreateTopic", "CreateTopics", "CreatePartitions", "DescribeAcls", "CreateAcls", "DeleteAcls",
           "ListPartitionReassignments", "AlterPartitionReassignments", "ElectLeaders"}
RawOps == {"RawListGroups", "RawCreateTopics", "RawCreatePartitions", "RawDeleteGroups", "RawDescribeConfigs", "AlterConfigs",
           "IncrementalAlterConfigs", "DescribeGroups", "OffsetCommit", "OffsetFetch"}
ApiOf(op) ==
  CASE op \in {"CreateTopic", "RawCreateTopics"} -> "CreateTopics"
    [] op \in {"RawListGroups", "AskListGroups"} -> "ListGroups"
    [] op = "RawCreatePartitions" -> "CreatePartitions"
    [] op = "RawDeleteGroups" -> "DeleteGroups"
    [] op = "RawDescribeConfigs" -> "DescribeConfigs"
    [] op = "Offsets" -> "ListOffsets"
    [] op = "Meta" -> "Metadata"
    [] OTHER -> op

NodeSet(s) == SeqSet(s.lay.nodes)
CoordOf(s, g) == {x.n : x \in {y \in SeqSet(s.lay.groups) : y.g = g}}
PartsOf(s, t) == UNION {SeqSet(x.parts) : x \in {y \in SeqSet(s.lay.topics) : y.t = t}}
TopicNames(s) == {x.t : x \in SeqSet(s.lay.topics)}
Asked(s, a) == IF a.pid = "-1" THEN PartsOf(s, a.topic) ELSE {x \in PartsOf(s, a.topic) : x.p = a.pid}
LogTopics(s, a) == IF a.all = "true" THEN TopicNames(s) ELSE SeqSet(a.topics)
Held(s, a, n) == {[t |-> t, ps |-> {x.p : x \in {y \in PartsOf(s, t) : n \in SeqSet(y.reps)}}] : t \in LogTopics(s, a)}
Replicas(s, a) == UNION {UNION {SeqSet(x.reps) : x \in PartsOf(s, t)} : t \in LogTopics(s, a)}

ConfigNode(s, a) == IF a.type \in {"broker", "broker_logger"} THEN {n \in NodeSet(s) : ToString(n) = a.name} ELSE {s.lay.ctl}

(* The brokers a call has to ask.                                             *)
Targets(s, op, a) ==
  CASE op \in CtlOps -> {s.lay.ctl}
    [] op \in RawOps -> {n \in NodeSet(s) : ToString(n) = a.node}
    [] op = "ListGroups" -> NodeSet(s)
    [] op = "DeleteGroups" -> UNION {CoordOf(s, a.groups[i]) : i \in 1..Len(a.groups)}
    [] op = "DescribeConfigs" -> ConfigNode(s, a)
    [] op = "Offsets" -> {x.leader : x \in Asked(s, a)}
    [] op = "DescribeLogDirs" -> Replicas(s, a)
    [] OTHER -> {}

(* ... and what each of them, for the calls that split their work.            *)
Pairs(b) == {[t |-> b.topics[i].name, ps |-> SeqSet(b.topics[i].partitions)] : i \in 1..Len(b.topics)}
OffIdx(b) == UNION {{b.topics[i].partitions[j].index : j \in 1..Len(b.topics[i].partitions)} : i \in 1..Len(b.topics)}
PartNo(S) == {x.p : x \in S}
ShareOK(s, op, a, e) ==
  CASE op = "DeleteGroups" -> \A i \in 1..Len(e.body.names) : e.n \in CoordOf(s, e.body.names[i])
    [] op = "Offsets" -> OffIdx(e.body) \subseteq PartNo({x \in Asked(s, a) : x.leader = e.n})
    [] op = "DescribeLogDirs" -> Pairs(e.body) = {x \in Held(s, a, e.n) : x.ps # {}}
    [] OTHER -> TRUE
RouteOK(s, e) ==
  LET op == s.call.op a == s.call.a IN
  \/ op \in {"Consume", "Produce", "AskListGroups", "Meta", "FindCoordinator"}
  \/ /\ e.api = ApiOf(op)
     /\ e.n \in Targets(s, op, a)
     /\ e.ok => ShareOK(s, op, a, e)

AskedNodes(s) == {s.asked[i].n : i \in 1..Len(s.asked)}
NoneSkipped(s) ==
  LET op == s.call.op a == s.call.a Q == s.asked IN
  /\ Targets(s, op, a) \subseteq AskedNodes(s)
  /\ op = "DeleteGroups" => SeqSet(a.groups) \subseteq UNION {SeqSet(Q[i].body.names) : i \in 1..Len(Q)}
  /\ op = "Offsets" => PartNo(Asked(s, a)) \subseteq UNION {OffIdx(Q[i].body) : i \in 1..Len(Q)}

(* ---------------------------------------------------------------- requests *)
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]

RECURSIVE Firsts(_, _)        \* the topics in order of first appearance
Firsts(q, seen) == IF q = <<>> THEN <<>>
                   ELSE IF Head(q).t \in seen THEN Firsts(Tail(q), seen)
                   ELSE <<Head(q).t>> \o Firsts(Tail(q), seen \cup {Head(q).t})
Of(q, t) == SelectSeq(q, LAMBDA x : x.t = t)
ByTopic(q, F(_, _)) == [i \in 1..Len(Firsts(q, {})) |-> F(Firsts(q, {})[i], Of(q, Firsts(q, {})[i]))]

RECURSIVE LastOf(_, _)
LastOf(q, p) == IF q[Len(q)].p = p THEN q[Len(q)] ELSE LastOf(SubSeq(q, 1, Len(q) - 1), p)
RECURSIVE Ps(_, _)
Ps(q, seen) == IF q = <<>> THEN <<>>
               ELSE IF Head(q).p \in seen THEN Ps(Tail(q), seen) ELSE <<Head(q).p>> \o Ps(Tail(q), seen \cup {Head(q).p})
Replaced(q) == Map(Ps(q, {}), LAMBDA p : [partition |-> p, brokers |-> LastOf(q, p).reps])

RECURSIVE Res(_, _)
Res(q, seen) == IF q = <<>> THEN <<>>
                ELSE LET k == [type |-> Head(q).type, name |-> Head(q).name] IN
                     IF k \in seen THEN Res(Tail(q), seen) ELSE <<k>> \o Res(Tail(q), seen \cup {k})
Entries(q, k) == SelectSeq(q, LAMBDA x : x.type = k.type /\ x.name = k.name)

TypeNo(t) == CASE t = "topic" -> "2" [] t = "broker" -> "4" [] t = "broker_logger" -> "8" [] OTHER -> "0"
NewTopic(n, a) == [name |-> n, num_partitions |-> a.num, replication |-> a.repl, assignments |-> <<>>, configs |-> <<>>]
NewParts(t) == [name |-> t.name, count |-> t.count,
                assignments |-> IF t.noassign = "true" THEN NullS ELSE Map(t.assign, LAMBDA x : [brokers |-> x])]
Acl0(x) == [resource_type |-> x.resource_type, resource_name |-> x.resource_name, principal |-> x.principal, host |-> x.host,
            operation |-> x.operation, permission |-> x.permission]
Acl1(x) == [resource_type |-> x.resource_type, resource_name |-> x.resource_name, pattern_type |-> x.pattern_type,
            principal |-> x.principal, host |-> x.host, operation |-> x.operation, permission |-> x.permission]
Acl(ver, x) == IF ver = 0 THEN Acl0(x) ELSE Acl1(x)
Keys(x) == IF x.nokeys = "true" THEN NullL ELSE x.keys

BodyOK(op, a, ver, b) ==
  CASE op = "ListGroups" ->
         /\ ver >= 4 => b.states_filter = <<>>
         /\ ver >= 5 => b.types_filter = <<>>
    [] op \in {"RawListGroups", "AskListGroups"} ->
         /\ ver >= 4 => b.states_filter = a.states
         /\ ver >= 5 => b.types_filter = a.types
    [] op = "DeleteTopics" -> b = [names |-> a.names, timeout |-> a.timeout]
    [] op = "CreateTopic" -> b = [topics |-> <<NewTopic(a.name, a)>>, timeout |-> a.timeout]
    [] op = "CreateTopics" -> b = [topics |-> Map(a.names, LAMBDA n : NewTopic(n, a)), timeout |-> a.timeout]
    [] op = "RawCreateTopics" ->
         b = [topics |-> Map(a.topics, LAMBDA t :
                           [name |-> t.name, num_partitions |-> t.num, replication |-> t.repl, assignments |-> Replaced(t.assign),
                            configs |-> Map(t.configs, LAMBDA x : [name |-> x.k, value |-> x.v])]),
              timeout |-> a.timeout]
    [] op = "CreatePartitions" -> b = [topics |-> <<NewParts(a)>>, timeout |-> a.timeout, validate_only |-> a.validate]
    [] op = "RawCreatePartitions" -> b = [topics |-> Map(a.topics, NewParts), timeout |-> a.timeout, validate_only |-> a.validate]
    [] op = "DescribeAcls" -> b = Acl(ver, a)
    [] op = "CreateAcls" -> b = [creations |-> Map(a.creations, LAMBDA x : Acl(ver, x))]
    [] op = "DeleteAcls" -> b = [filters |-> Map(a.filters, LAMBDA x : Acl(ver, x))]
    [] op = "DescribeConfigs" -> b = [resources |-> << [type |-> TypeNo(a.type), name |-> a.name, keys |-> Keys(a)] >>]
    [] op = "RawDescribeConfigs" ->
         b = [resources |-> Map(a.resources, LAMBDA x : [type |-> x.type, name |-> x.name, keys |-> Keys(x)])]
    [] op = "AlterConfigs" ->
         b = [resources |-> Map(Res(a.entries, {}), LAMBDA k :
                [type |-> k.type, name |-> k.name, configs |-> Map(Entries(a.entries, k), LAMBDA x : [name |-> x.k, value |-> x.v])]),
              validate_only |-> a.validate]
    [] op = "IncrementalAlterConfigs" ->
         b = [resources |-> Map(Res(a.entries, {}), LAMBDA k :
                [type |-> k.type, name |-> k.name,
                 configs |-> Map(Entries(a.entries, k), LAMBDA x : [name |-> x.k, operation |-> "0", value |-> x.v])]),
              validate_only |-> a.validate]
    [] op = "RawDeleteGroups" -> b = [names |-> a.groups]
    [] op = "DescribeGroups" -> b = [groups |-> a.groups]
    [] op = "DeleteGroups" -> DOMAIN b = {"names"} /\ SeqSet(b.names) \subseteq SeqSet(a.groups) /\ b.names # <<>>
    [] op = "ListPartitionReassignments" ->
         b = [timeout |-> a.timeout,
              topics |-> IF a.tps = <<>> THEN NullS
                         ELSE ByTopic(a.tps, LAMBDA t, q : [name |-> t, partitions |-> Map(q, LAMBDA x : x.p)])]
    [] op = "ElectLeaders" ->
         b = [timeout |-> a.timeout,
              topics |-> ByTopic(a.tps, LAMBDA t, q : [topic |-> t, partitions |-> Map(q, LAMBDA x : x.p)])]
    [] op = "AlterPartitionReassignments" ->
         b = [timeout |-> a.timeout,
              topics |-> ByTopic(a.tps, LAMBDA t, q : [name |-> t, partitions |->
                           Map(q, LAMBDA x : [index |-> x.p, replicas |-> IF x.cancel = "true" THEN NullL ELSE x.reps])])]
    [] op = "Offsets" ->
         /\ b.replica_id = "-1"
         /\ \A i \in 1..Len(b.topics) : b.topics[i].name = a.topic
         /\ \A i \in 1..Len(b.topics) : \A j \in 1..Len(b.topics[i].partitions) :
              LET x == b.topics[i].partitions[j] IN
              /\ x.timestamp = a.time
              /\ ver = 0 => x.max_num_offsets = a.n
    [] op = "DescribeLogDirs" -> \A i \in 1..Len(b.topics) : Len(b.topics[i].partitions) = Cardinality(SeqSet(b.topics[i].partitions))
    [] op = "OffsetCommit" ->
         LET tops == ByTopic(a.tps, LAMBDA t, q : [name |-> t, partitions |->
                               Map(q, LAMBDA x : [index |-> x.p, offset |-> x.offset, metadata |-> x.metadata])]) IN
         b = IF ver = 0 THEN [group |-> a.group, topics |-> tops]
             ELSE [group |-> a.group, generation |-> a.generation, member |-> a.member, retention |-> a.retention, topics |-> tops]
    [] op = "OffsetFetch" ->
         b = [group |-> a.group, topics |-> ByTopic(a.tps, LAMBDA t, q : [name |-> t, partitions |-> Map(q, LAMBDA x : x.p)])]
    [] op = "Meta" -> b.topics = (IF a.topics = <<>> THEN NullL ELSE a.topics)
    [] op = "FindCoordinator" -> b = [key |-> a.group]
    [] OTHER -> TRUE

(* The lookups a call makes on its way ask for its topics and groups.         *)
LookupOK(s, e) ==
  LET op == s.call.op a == s.call.a IN
  CASE e.api = "Metadata" /\ op = "Meta" -> BodyOK(op, a, e.ver, e.body)
    [] e.api = "FindCoordinator" /\ op = "FindCoordinator" -> BodyOK(op, a, e.ver, e.body)
    [] OTHER -> TRUE

(* ----------------------------------------------------------------- answers *)
Answers(s) == SelectSeq(s.ans, LAMBDA x : x.api = ApiOf(s.call.op))
(* Every field the answer has in its version, except lists, is in the value.  *)
Flat(v, b, lists, nz) ==
  \A f \in DOMAIN b \ lists : v[f] = b[f] \/ (f \in nz /\ b[f] = Null /\ v[f] = "")
ListEq(vs, bs, F(_, _)) == Len(vs) = Len(bs) /\ \A i \in 1..Len(bs) : F(vs[i], bs[i])
Plain(v, b) == Flat(v, b, {}, {})
PlainNz(v, b) == Flat(v, b, {}, {"message", "value", "metadata", "rack"})

Groups(v, b) == ListEq(v, b, Plain)
LogPart(v, b) == Plain(v, b)
LogTopic(v, b) == Flat(v, b, {"partitions"}, {}) /\ ListEq(v.partitions, b.partitions, LogPart)
LogDir(T, v, b) ==
  /\ Flat(v, b, {"topics"}, {})
  /\ ListEq(v.topics, SelectSeq(b.topics, LAMBDA x : x.name \in T), LogTopic)
AclRes(v, b) == Flat(v, b, {"acls"}, {}) /\ ListEq(v.acls, b.acls, Plain)
TopicParts(v, b) == Flat(v, b, {"partitions"}, {}) /\ ListEq(v.partitions, b.partitions, Plain)
TopicPartsNz(v, b) == Flat(v, b, {"partitions"}, {}) /\ ListEq(v.partitions, b.partitions, PlainNz)
Config(v, b) == Flat(v, b, {"configs"}, {"message"}) /\ ListEq(v.configs, b.configs, PlainNz)
GroupD(v, b) == Flat(v, b, {"members"}, {}) /\ ListEq(v.members, b.members, Plain)

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
SameBag(v, b, F(_, _), key(_)) ==
  /\ Len(v) = Len(b)
  /\ \A i \in 1..Len(b) : \E j \in 1..Len(v) : key(v[j]) = key(b[i]) /\ F(v[j], b[i])
MetaTopic(v, b) == Flat(v, b, {"partitions"}, {}) /\ SameBag(v.partitions, b.partitions, Plain, LAMBDA x : x.index)

OneAnswer(op, v, b) ==
  CASE op \in {"RawListGroups", "AskListGroups"} -> Flat(v, b, {"groups"}, {}) /\ Groups(v.groups, b.groups)
    [] op = "DeleteTopics" -> ListEq(v.responses, b.responses, Plain)
    [] op \in {"CreateTopic", "CreateTopics", "RawCreateTopics"} -> ListEq(v.topics, b.topics, Plain)
    [] op \in {"CreatePartitions", "RawCreatePartitions", "RawDeleteGroups"} ->
         Flat(v, b, {"results"}, {}) /\ ListEq(v.results, b.results, Plain)
    [] op = "DescribeAcls" -> Flat(v, b, {"resources"}, {}) /\ ListEq(v.resources, b.resources, AclRes)
    [] op = "CreateAcls" -> ListEq(v.results, b.results, Plain)
    [] op = "DeleteAcls" -> Flat(v, b, {"results"}, {}) /\ ListEq(v.results, b.results, AclRes)
    [] op \in {"DescribeConfigs", "RawDescribeConfigs"} -> Flat(v, b, {"results"}, {}) /\ ListEq(v.results, b.results, Config)
    [] op \in {"AlterConfigs", "IncrementalAlterConfigs"} ->
         Flat(v, b, {"responses"}, {}) /\ ListEq(v.responses, b.responses, PlainNz)
    [] op = "ListPartitionReassignments" -> Flat(v, b, {"topics"}, {}) /\ ListEq(v.topics, b.topics, TopicParts)
    [] op = "AlterPartitionReassignments" -> Flat(v, b, {"responses"}, {}) /\ ListEq(v.responses, b.responses, TopicParts)
    [] op = "ElectLeaders" -> Flat(v, b, {"results"}, {}) /\ ListEq(v.results, b.results, TopicPartsNz)
    [] op = "DescribeGroups" -> ListEq(v.groups, b.groups, GroupD)
    [] op = "Meta" ->
         /\ Flat(v, b, {"brokers", "topics"}, {"cluster_id"})
         /\ ListEq(v.brokers, b.brokers, PlainNz)
         /\ SameBag(v.topics, b.topics, MetaTopic, LAMBDA x : x.name)
    [] op = "FindCoordinator" -> Plain(v, b)
    [] op = "OffsetCommit" -> ListEq(v.topics, b.topics, TopicParts)
    [] op = "OffsetFetch" -> ListEq(v.topics, b.topics, TopicPartsNz)
    [] OTHER -> FALSE

OffRows(A) == Cat(Map(A, LAMBDA x : Cat(Map(x.body.topics, LAMBDA t :
                Map(t.partitions, LAMBDA p : [name |-> t.name, index |-> p.index, row |-> p])))))

ValueOK(s, v) ==
  LET op == s.call.op a == s.call.a A == Answers(s) IN
  CASE op = "ListGroups" ->
         /\ \A i \in 1..Len(A) : A[i].body.error = "0"
         /\ \A i \in 1..Len(A) : A[i].body.groups = <<>> \/
              \E j \in 1..Len(v) : v[j].n = ToString(A[i].n) /\ Groups(v[j].groups, A[i].body.groups)
         /\ \A j \in 1..Len(v) : \E i \in 1..Len(A) : v[j].n = ToString(A[i].n) /\ Groups(v[j].groups, A[i].body.groups)
    [] op = "DescribeLogDirs" ->
         /\ \A i \in 1..Len(A) : \E j \in 1..Len(v) :
              /\ v[j].n = ToString(A[i].n)
              /\ v[j].throttle = A[i].body.throttle
              /\ ListEq(v[j].results, A[i].body.results, LAMBDA x, y : LogDir(LogTopics(s, a), x, y))
         /\ Len(v) = Len(A)
    [] op = "DeleteGroups" ->
         SameBag(v.results, Cat(Map(A, LAMBDA x : x.body.results)), Plain, LAMBDA x : x.group)
    [] op = "Offsets" ->
         SameBag(v, OffRows(A), LAMBDA x, y : x.name = y.name /\ Plain(x, y.row), LAMBDA x : x.index)
    [] op \in {"Consume", "Produce"} -> v.recs = s.want
    [] OTHER -> A # <<>> /\ OneAnswer(op, v, A[Len(A)].body)

(* A call may fail when an answer carries an error, when an answer is lost,   *)
(* or when its arguments do not make sense.                                   *)
Distinct(q) == Cardinality(SeqSet(q)) = Len(q)
Senseless(s) ==
  LET op == s.call.op a == s.call.a IN
  \/ op = "CreateTopics" /\ ~Distinct(a.names)
  \/ op = "RawCreateTopics" /\ ~Distinct(Map(a.topics, LAMBDA t : t.name))
  \/ op = "DescribeConfigs" /\ ConfigNode(s, a) = {}
  \/ op = "Offsets" /\ (Asked(s, a) = {} \/ \E x \in Asked(s, a) : x.leader \notin NodeSet(s))
  \/ op = "DescribeLogDirs" /\ ~(Replicas(s, a) \subseteq NodeSet(s))
  \/ op \in {"Consume", "Produce"} /\ {x \in PartsOf(s, a.topic) : x.p = a.pid /\ x.leader \in NodeSet(s)} = {}
MayFail(s, e) == s.codes # {} \/ s.lost \/ Senseless(s)

(* -------------------------------------------------------------- transitions *)
Busy(s) == s.call.op # "none"
AMay(s, e) ==
  CASE e.ev = "Req" ->
         /\ G("B03", VersionOK(e))
         /\ Busy(s) =>
              IF e.api \in Lookups
              THEN G("M03", e.ok /\ LookupOK(s, e))
              ELSE /\ G("M02", RouteOK(s, e))
                   /\ G("M03", e.ok /\ BodyOK(s.call.op, s.call.a, e.ver, e.body))
    [] e.ev = "Ret" ->
         IF e.err
         THEN G2({"M04", "B03"}, MayFail(s, e)) /\ G("M04", e.code # 0 => e.code \in s.codes)
         ELSE /\ G("M02", NoneSkipped(s))
              /\ G2({"M04", "B03"}, ValueOK(s, e.val))
              /\ G("M04", Targets(s, s.call.op, s.call.a) \subseteq {Answers(s)[i].n : i \in 1..Len(Answers(s))})
    [] e.ev = "Crash" -> G2({"M04", "B03"}, FALSE) /\ G2({"M02", "M03"}, Answers(s) # <<>>)
    [] e.ev = "Hang" -> ~(Prop \in {"M04", "B03", "ALL"})
    [] e.ev = "NoHandle" -> ~(Prop \in {"M04", "B03", "ALL"})
    [] OTHER -> TRUE

ADo(s, e) ==
  CASE e.ev = "Layout" -> [s EXCEPT !.lay = [ctl |-> e.ctl, nodes |-> e.nodes, topics |-> e.topics, groups |-> e.groups]]
    [] e.ev = "Call" -> [s EXCEPT !.call = [op |-> e.op, a |-> e.a], !.asked = <<>>, !.ans = <<>>, !.codes = {}, !.lost = FALSE, !.want = <<>>]
    [] e.ev = "Req" /\ Busy(s) /\ e.api \notin Lookups ->
         IF e.ok THEN [s EXCEPT !.asked = Append(@, [n |-> e.n, body |-> e.body])] ELSE s
    [] e.ev = "Ans" /\ Busy(s) ->
         [s EXCEPT !.ans = Append(@, [n |-> e.n, api |-> e.api, ver |-> e.ver, body |-> e.body]), !.codes = @ \cup SeqSet(e.codes)]
    [] e.ev = "Lost" -> [s EXCEPT !.lost = TRUE]
    [] e.ev = "Stored" -> [s EXCEPT !.want = e.want]
    [] e.ev = "Ret" -> [s EXCEPT !.call = NoCall]
    [] OTHER -> s
=============================================================================
