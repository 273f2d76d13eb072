------------------------------- MODULE Front -------------------------------
(* The administrative calls as they are given to the healer command (T02) and *)
(* to its HTTP interface (H01, H02).  What a call has to make the brokers     *)
(* receive, and what its answer says, is Admin's; here is what the front ends *)
(* add: where their calls go, what they show, what they refuse.               *)
(*                                                                            *)
(*   FMay(s, e)   the specification allows event e in state s                 *)
(*   FDo(s, e)    the state after e                                           *)
(*                                                                            *)
(* A call [op, a, bad, auth] is bad when what was typed makes no sense; auth  *)
(* says what it gave as credentials: "right", "wrong" or "none".  A return    *)
(* says whether the front end failed (an exit status, an HTTP status), and    *)
(* the value it showed, read back, if it showed one.                          *)
EXTENDS Admin

FStart(cfg) == AStart(cfg) @@
  [ cfg |-> cfg,          \* front: "cli" or "api"; guarded: --auth; getok: --get-allowed
    reqs |-> 0,           \* requests of this call, lookups included
    meta |-> <<>> ]       \* the last metadata request's body

(* ---------------------------------------------------------------- requests *)
FTargets(s, op, a) ==
  CASE op = "DescribeGroups" -> CoordOf(s, a.groups[1])
    [] op \in {"RawCreateTopics", "RawDescribeConfigs"} -> {s.lay.ctl}
    [] op = "IncrementalAlterConfigs" ->
         IF a.entries[1].type \in {"4", "8"} /\ a.entries[1].name # "" THEN {n \in NodeSet(s) : ToString(n) = a.entries[1].name} ELSE {s.lay.ctl}
    [] OTHER -> Targets(s, op, a)

Leaders(s, t) == {x.leader : x \in PartsOf(s, t)}
PendingOK(s, a, e) ==
  \/ /\ e.api = "ListOffsets"
     /\ e.n \in Leaders(s, a.topic)
     /\ OffIdx(e.body) \subseteq PartNo({x \in PartsOf(s, a.topic) : x.leader = e.n})
     /\ BodyOK("Offsets", a, e.ver, e.body)
  \/ /\ e.api = "OffsetFetch"
     /\ e.n \in CoordOf(s, a.group)
     /\ e.body.group = a.group
     /\ \A i \in 1..Len(e.body.topics) : e.body.topics[i].name = a.topic

(* Replica assignments may be listed in any order.                            *)
NewTopicOK(b, a) ==
  /\ Len(b.topics) = 1
  /\ LET t == b.topics[1] w == a.topics[1] IN
     /\ t.name = w.name /\ t.num_partitions = w.num /\ t.replication = w.repl /\ t.configs = <<>>
     /\ SeqSet(t.assignments) = SeqSet(Replaced(w.assign))
     /\ Len(t.assignments) = Len(Replaced(w.assign))
  /\ b.timeout = a.timeout

FReqOK(s, e) ==
  LET op == s.call.op a == s.call.a IN
  /\ e.ok
  /\ ~s.call.bad
  /\ IF op = "Pending" THEN PendingOK(s, a, e)
     ELSE /\ e.api = ApiOf(op)
          /\ e.n \in FTargets(s, op, a)
          /\ ShareOK(s, op, a, e)
          /\ IF op = "RawCreateTopics" THEN NewTopicOK(e.body, a) ELSE BodyOK(op, a, e.ver, e.body)

(* ----------------------------------------------------------------- answers *)
Of1(s, api) == SelectSeq(s.ans, LAMBDA x : x.api = api)
Rows(A) == SeqSet(Cat(Map(A, LAMBDA x : Cat(Map(x.body.topics, LAMBDA t : t.partitions)))))
EndOf(A, p) == {IF "offset" \in DOMAIN r THEN r.offset ELSE r.old_offsets[1] : r \in {x \in Rows(A) : x.index = p}}
ComOf(A, p) == {r.offset : r \in {x \in Rows(A) : x.index = p}}
PendingVal(s, v) ==
  LET P == PartNo(PartsOf(s, s.call.a.topic)) IN
  /\ s.codes = {}
  /\ Len(v) = Cardinality(P)
  /\ \A p \in P : \E i \in 1..Len(v) :
       /\ v[i].index = p
       /\ v[i].end \in EndOf(Of1(s, "ListOffsets"), p)
       /\ v[i].com \in ComOf(Of1(s, "OffsetFetch"), p)
       /\ v[i].back = v[i].end                    \* the lag is what is missing
Member(v, b) == Flat(v, b, {"assignment"}, {})
Detail(v, b) == Flat(v, b, {"members"}, {}) /\ ListEq(v.members, b.members, Member)

FValueOK(s, e) ==
  LET op == s.call.op A == Answers(s) IN
  CASE op = "CreatePartitions" /\ s.cfg.front = "cli" -> e.said /\ s.codes = {} /\ A # <<>>
    [] op = "Pending" -> e.read /\ PendingVal(s, e.val)
    [] op = "DescribeGroups" -> e.read /\ A # <<>> /\ ListEq(e.val.groups, A[Len(A)].body.groups, Detail)
    [] op = "Meta" -> e.read /\ BodyOK("Meta", s.call.a, 0, s.meta) /\ ValueOK(s, e.val)
    [] op \in {"Path", "Second"} -> TRUE
    [] OTHER -> e.read /\ ValueOK(s, e.val)

FNoneSkipped(s) ==
  LET op == s.call.op a == s.call.a IN
  CASE op = "Pending" -> Leaders(s, a.topic) \cup CoordOf(s, a.group) \subseteq AskedNodes(s)
    [] op \in {"Path", "Second", "Meta"} -> TRUE
    [] OTHER -> /\ FTargets(s, op, a) \subseteq AskedNodes(s)
                /\ op = "DeleteGroups" => SeqSet(a.groups) \subseteq UNION {SeqSet(s.asked[i].body.names) : i \in 1..Len(s.asked)}
                /\ op = "Offsets" => PartNo(Asked(s, a)) \subseteq UNION {OffIdx(s.asked[i].body) : i \in 1..Len(s.asked)}

FSenseless(s) ==
  LET op == s.call.op a == s.call.a IN
  CASE op = "Pending" -> PartsOf(s, a.topic) = {} \/ ~(Leaders(s, a.topic) \subseteq NodeSet(s))
    [] op = "IncrementalAlterConfigs" -> FTargets(s, op, a) = {}
    [] op = "Second" -> TRUE
    [] OTHER -> Senseless(s)
FMayFail(s) == s.codes # {} \/ s.lost \/ FSenseless(s)

(* ------------------------------------------------------------- credentials *)
Open(s) == ~s.cfg.guarded
           \/ s.call.auth = "right"
           \/ (s.cfg.getok /\ s.call.method \in {"GET", "HEAD", "OPTIONS"})

(* -------------------------------------------------------------- transitions *)
FMay(s, e) ==
  CASE e.ev = "Req" /\ Busy(s) ->
         /\ G("H02", Open(s))
         /\ e.api \notin Lookups => G2({"T02", "H01"}, FReqOK(s, e))
    [] e.ev = "Ret" ->
         /\ G("H02", IF Open(s) THEN e.status # 401 ELSE e.status = 401)
         /\ G2({"T02", "H01"},
              CASE s.call.op = "Second" -> e.err
                [] s.call.bad -> e.err
                [] ~Open(s) -> TRUE
                [] e.err -> FMayFail(s)
                [] OTHER -> FNoneSkipped(s) /\ FValueOK(s, e))
    [] e.ev \in {"Hang", "Crash", "NoHandle"} -> ~(Prop \in {"T02", "H01", "H02", "ALL"})
    [] OTHER -> TRUE

FDo(s, e) ==
  CASE e.ev = "Call" -> [ADo(s, e) EXCEPT !.call = [op |-> e.op, a |-> e.a, bad |-> e.bad, auth |-> e.auth, method |-> e.method],
                                          !.reqs = 0, !.meta = <<>>]
    [] e.ev = "Req" /\ Busy(s) -> [ADo(s, e) EXCEPT !.reqs = @ + 1, !.meta = IF e.api = "Metadata" THEN e.body ELSE @]
    [] OTHER -> ADo(s, e)
=============================================================================
