------------------------------- MODULE Group -------------------------------
(* A consumer group as its coordinator, the brokers and the applications see  *)
(* it: joins, syncs, heartbeats, leaves, fetches, offset lookups and commits  *)
(* of every member, with the answers; deliveries; members closing, dying and  *)
(* being expelled.                                                            *)
(*                                                                            *)
(*   GMay(s, e)   the specification allows event e in state s                 *)
(*   GDo(s, e)    the state after e                                           *)
(*                                                                            *)
(* Offsets of a partition are 0, 1, 2, ... without gaps.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
G(p, c) == (Prop = p \/ Prop = "ALL") => c
About(S) == Prop \in S \cup {"ALL"}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
SeqSet(q) == {q[i] : i \in 1..Len(q)}
EmptyF == [x \in {} |-> 0]

NoId == [mid |-> "", gen |-> -1]

Member(t) ==
  [ topic |-> t,
    st    |-> "out",       \* out joining joined syncing in
    r     |-> 0,           \* the request an answer is awaited for
    ids   |-> {""},        \* member ids it may join with
    pair  |-> NoId,        \* member id and generation it was last given
    leads |-> FALSE, mates |-> <<>>,
    meta  |-> EmptyF,      \* what it was last told of a topic's partitions
    asg   |-> {},          \* what it was assigned
    hb    |-> "ok",        \* ok sent bad
    hr    |-> 0,
    off   |-> EmptyF,      \* committed offsets it was given since it was assigned (-1: none)
    ends  |-> EmptyF,      \* ends of the log it was given
    segs  |-> EmptyF,      \* runs of deliveries, one per assignment: [i, gen]
    cm    |-> EmptyF,      \* last commit the coordinator accepted, in this assignment
    late  |-> 0,           \* deliveries of an assignment it gave up
    close |-> "no",        \* no closing closed quiet
    fair  |-> FALSE, left |-> FALSE, mute |-> FALSE ]

GStart(cfg) ==
  [ begin |-> cfg.begin, auto |-> cfg.auto, cap |-> cfg.cap,
    hi    |-> EmptyF,      \* records stored
    com   |-> EmptyF,      \* what the group committed
    del   |-> EmptyF,      \* offsets delivered
    seen  |-> {},          \* assignments leaders made: [in, out]
    mem   |-> [m \in {cfg.members[i].m : i \in 1..Len(cfg.members)} |->
                 Member((CHOOSE x \in SeqSet(cfg.members) : x.m = m).topic)] ]

(* ------------------------------------------------------- the assignment   *)
Subscribers(mates, t) == {mates[i].id : i \in {j \in 1..Len(mates) : t \in SeqSet(mates[j].subs)}}
TopicsOf(mates) == UNION {SeqSet(mates[i].subs) : i \in 1..Len(mates)}
PartsOf(q, t) == At(q.meta, t, {})

(* All (member, topic, partition) of an assignment, as often as they occur.   *)
RECURSIVE Triples(_)
Triples(asg) ==
  IF asg = <<>> THEN <<>>
  ELSE [i \in 1..Len(Head(asg).tps) |->
          [id |-> Head(asg).id, t |-> Head(asg).tps[i].t, p |-> Head(asg).tps[i].p]]
       \o Triples(Tail(asg))

ShareOf(T, id, t) == {x.p : x \in {y \in T : y.id = id /\ y.t = t}}
Contiguous(S, P) == \A a \in S, b \in S, c \in P : (a < c /\ c < b) => c \in S

AssignmentOK(q, asg) ==
  LET L == Triples(asg)  T == SeqSet(L)  topics == TopicsOf(q.mates) IN
  /\ Len(L) = Cardinality(T)                                    \* nothing twice
  /\ Cardinality({asg[i].id : i \in 1..Len(asg)}) = Len(asg)
  /\ \A x \in T : /\ x.t \in topics
                  /\ x.p \in PartsOf(q, x.t)
                  /\ x.id \in Subscribers(q.mates, x.t)         \* nothing else to anyone
  /\ \A t \in topics :
       LET S == Subscribers(q.mates, t)  P == PartsOf(q, t) IN
       /\ \A p \in P : Cardinality({x \in T : x.t = t /\ x.p = p}) = 1     \* exactly one
       /\ \A a \in S : Contiguous(ShareOf(T, a, t), P)
       /\ \A a, b \in S : Cardinality(ShareOf(T, a, t)) - Cardinality(ShareOf(T, b, t)) <= 1

(* What an assignment depends on, without any order.                          *)
Inputs(q) ==
  [ mates |-> {[id |-> q.mates[i].id, subs |-> SeqSet(q.mates[i].subs)] : i \in 1..Len(q.mates)},
    parts |-> {<<t, PartsOf(q, t)>> : t \in TopicsOf(q.mates)} ]

OnlyInputs(s, q, asg) ==
  \A x \in s.seen : x.in = Inputs(q) => x.out = SeqSet(Triples(asg))

(* ------------------------------------------------------------ positions   *)
(* Where consumption of a partition may start, given the answers so far.      *)
Starts(s, q, tp) ==
  LET o == At(q.off, tp, {}) IN
  {c \in o : c >= 0} \cup (IF -1 \in o THEN At(q.ends, tp, {}) ELSE {})

Segs(q, tp) == At(q.segs, tp, <<>>)
Current(q, tp) ==        \* the run of this assignment, if it began
  LET g == Segs(q, tp) IN g # <<>> /\ g[Len(g)].gen = q.pair.gen /\ q.st = "in"

Owns(q, tp) == q.st = "in" /\ tp \in q.asg

(* The run a delivery continues: the latest, if several could.                *)
RunOf(g, off) ==
  LET ok == {j \in 1..Len(g) : g[j].i = off} IN
  IF ok = {} THEN 0 ELSE CHOOSE j \in ok : \A k \in ok : k <= j
Latest(g) == SubSeq(g, IF Len(g) > 3 THEN Len(g) - 2 ELSE 1, Len(g))

DeliverMay(s, q, e) ==
  LET g == Segs(q, e.tp)  j == RunOf(g, e.off) IN
  /\ e.off < At(s.hi, e.tp, 0)
  /\ e.right
  /\ G("G04", j > 0)
  /\ G("G03", j > 0)
  /\ G("G03", j > 0 => \/ j = Len(g) /\ Current(q, e.tp) /\ Owns(q, e.tp)
                       \/ q.late <= s.cap)
  /\ G("G05", q.close # "quiet")

CommitMay(s, q, e) ==
  /\ G("G03", e.mine /\ Owns(q, e.tp) /\ e.mid = q.pair.mid /\ e.gen = q.pair.gen)
  /\ G("G02", q.st = "in")
  /\ G("G04", IF Current(q, e.tp)
              THEN LET g == Segs(q, e.tp)  x == g[Len(g)] IN
                   e.off >= x.from /\ e.off <= x.i + s.cap + 1
              ELSE e.off \in Starts(s, q, e.tp))
  /\ G("G05", q.close # "quiet" /\ ~q.left)

(* ----------------------------------------------------------------- steps  *)
GMay(s, e) ==
  IF e.ev \in {"Store", "Expire", "Done", "CommitResp", "LeaveResp"} THEN TRUE
  ELSE IF e.ev = "End" THEN
    /\ About({"G04"}) =>
         \A i \in 1..Len(e.due) :
           \A o \in e.lo..(At(s.hi, e.due[i], 0) - 1) : o \in At(s.del, e.due[i], {})
    /\ About({"G02", "G04"}) =>
         /\ e.settled
         /\ \A i \in 1..Len(e.live) :
              s.mem[e.live[i]].st = "in" /\ s.mem[e.live[i]].pair.gen = e.gen
  ELSE IF e.ev = "Held" THEN                 \* what the group has committed in the end
    G("G04", s.auto => e.c >= At(s.hi, e.tp, 0))
  ELSE IF e.ev = "Hang" THEN
    IF e.in \in {"close", "consume"} THEN ~About({"G05", "G02"}) ELSE ~About({"G02", "G04", "G05"})
  ELSE IF e.ev = "Crash" THEN FALSE
  ELSE LET q == s.mem[e.m] IN
  CASE e.ev \in {"Begin", "JoinResp", "SyncResp", "HBResp", "Meta", "OffResp", "ListResp", "Mute", "Stop"} -> TRUE
    [] e.ev = "JoinReq" ->
         /\ G("G02", e.mine /\ e.mid \in q.ids)
         /\ G("G02", SeqSet(e.subs) = {q.topic} /\ Len(e.protos) > 0)
         /\ G("G05", q.close # "quiet")
    [] e.ev = "SyncReq" ->
         /\ G("G02", e.mine /\ q.st = "joined" /\ e.mid = q.pair.mid /\ e.gen = q.pair.gen)
         /\ IF q.leads
            THEN G("G01", e.mine /\ AssignmentOK(q, e.asg) /\ OnlyInputs(s, q, e.asg))
            ELSE G("G01", e.asg = <<>>)
         /\ G("G05", q.close # "quiet")
    [] e.ev = "HB" ->
         /\ G("G02", e.mine /\ q.st = "in" /\ e.mid = q.pair.mid /\ e.gen = q.pair.gen /\ q.hb = "ok")
         /\ G("G05", q.close # "quiet" /\ ~q.left)
    [] e.ev = "Leave" ->
         /\ G("G05", e.mine /\ q.close # "no" /\ e.mid = q.pair.mid)
         /\ G("G02", q.close # "no")
    [] e.ev = "Fetch" ->
         /\ G("G03", Owns(q, e.tp))
         /\ G("G02", q.st = "in")
         /\ G("G04", IF Current(q, e.tp)
                     THEN LET g == Segs(q, e.tp)  x == g[Len(g)] IN
                          e.off >= x.from /\ e.off <= x.i + s.cap + 1
                     ELSE e.off \in Starts(s, q, e.tp))
         /\ G("G05", q.close # "quiet" /\ ~q.left)
    [] e.ev = "OffReq" -> G("G03", e.mine /\ Owns(q, e.tp))
    [] e.ev = "ListReq" -> G("G03", Owns(q, e.tp)) /\ G("G04", e.ts = (IF s.begin THEN -2 ELSE -1))
    [] e.ev = "Commit" -> CommitMay(s, q, e)
    [] e.ev = "Deliver" -> DeliverMay(s, q, e)
    [] e.ev = "DeliverErr" -> ~About({"G04"})
    [] e.ev = "Stopped" -> TRUE
    [] e.ev = "Gone" ->
         G("G05", q.fair => /\ q.left /\ ~e.in
                            /\ s.auto => \A tp \in DOMAIN q.segs :
                                 Current(q, tp) =>
                                   LET x == q.segs[tp][Len(q.segs[tp])] IN
                                   x.i > x.from => At(q.cm, tp, -1) >= x.i)
    [] e.ev = "Quiet" -> TRUE
    [] OTHER -> FALSE

Upd(s, m, q) == [s EXCEPT !.mem[m] = q]

Rejoin(q, e) == [q EXCEPT !.st = "joining", !.r = e.r, !.ids = {e.mid}, !.late = 0]

GDo(s, e) ==
  IF e.ev \in {"Expire", "Done", "LeaveResp", "End", "Hang", "Held", "Crash"} THEN s
  ELSE IF e.ev = "Store" THEN [s EXCEPT !.hi = Put(@, e.tp, e.hi)]
  ELSE IF e.ev = "CommitResp" THEN
    IF e.code # 0 THEN s
    ELSE LET s1 == [s EXCEPT !.com = Put(@, e.tp, e.off)] IN
         IF e.m \in DOMAIN s.mem THEN [s1 EXCEPT !.mem[e.m].cm = Put(@, e.tp, e.off)] ELSE s1
  ELSE LET q == s.mem[e.m] IN
  CASE e.ev = "JoinReq" -> Upd(s, e.m, Rejoin(q, e))
    [] e.ev = "JoinResp" ->
         IF q.st # "joining" \/ e.r # q.r THEN s
         ELSE IF e.code = 0
         THEN Upd(s, e.m, [q EXCEPT !.st = "joined", !.ids = @ \cup {e.mid}, !.pair = [mid |-> e.mid, gen |-> e.gen],
                                    !.leads = e.leads, !.mates = e.members])
         ELSE Upd(s, e.m, [q EXCEPT !.st = "out", !.ids = IF e.code = 25 THEN @ \cup {""} ELSE @])
    [] e.ev = "SyncReq" ->
         LET s1 == IF q.leads /\ About({"G01"})
                   THEN [s EXCEPT !.seen = @ \cup {[in |-> Inputs(q), out |-> SeqSet(Triples(e.asg))]}] ELSE s IN
         Upd(s1, e.m, [q EXCEPT !.st = "syncing", !.r = e.r, !.ids = {e.mid}])
    [] e.ev = "SyncResp" ->
         IF q.st # "syncing" \/ e.r # q.r THEN s
         ELSE IF e.code = 0
         THEN Upd(s, e.m, [q EXCEPT !.st = "in", !.asg = SeqSet(e.tps), !.hb = "ok", !.off = EmptyF, !.ends = EmptyF,
                                    !.cm = EmptyF])
         ELSE Upd(s, e.m, [q EXCEPT !.st = "out", !.ids = IF e.code = 25 THEN @ \cup {""} ELSE @])
    [] e.ev = "HB" -> Upd(s, e.m, [q EXCEPT !.hb = "sent", !.hr = e.r])
    [] e.ev = "HBResp" ->
         IF e.r # q.hr THEN s
         ELSE Upd(s, e.m, [q EXCEPT !.hb = IF e.code = 0 THEN "ok" ELSE "bad",
                                    !.ids = IF e.code = 25 THEN @ \cup {""} ELSE @])
    [] e.ev = "Leave" -> Upd(s, e.m, [q EXCEPT !.left = TRUE])
    [] e.ev = "Meta" ->
         LET RECURSIVE Add(_, _)
             Add(f, l) == IF l = <<>> THEN f ELSE Add(Put(f, Head(l).t, SeqSet(Head(l).ps)), Tail(l)) IN
         Upd(s, e.m, [q EXCEPT !.meta = Add(@, e.topics)])
    [] e.ev = "OffResp" ->
         IF e.code = 0 THEN Upd(s, e.m, [q EXCEPT !.off = Put(@, e.tp, At(@, e.tp, {}) \cup {e.off})]) ELSE s
    [] e.ev = "ListResp" ->
         IF e.code = 0 THEN Upd(s, e.m, [q EXCEPT !.ends = Put(@, e.tp, At(@, e.tp, {}) \cup {e.off})]) ELSE s
    [] e.ev = "Fetch" ->
         IF Current(q, e.tp) THEN s
         ELSE Upd(s, e.m, [q EXCEPT !.segs = Put(@, e.tp, Append(Latest(Segs(q, e.tp)),
                                [i |-> e.off, from |-> e.off, gen |-> q.pair.gen]))])
    [] e.ev = "Deliver" ->
         LET g == Segs(q, e.tp)  j == RunOf(g, e.off) IN
         [ s EXCEPT !.del = Put(@, e.tp, At(@, e.tp, {}) \cup {e.off}),
                    !.mem[e.m] =
                      IF j = 0 THEN q
                      ELSE [q EXCEPT !.segs = Put(@, e.tp, [g EXCEPT ![j].i = e.off + 1]),
                                     !.late = IF j = Len(g) /\ Current(q, e.tp) THEN @ ELSE @ + 1] ]
    [] e.ev = "Stop" -> Upd(s, e.m, [q EXCEPT !.close = "closing", !.fair = e.fair])
    [] e.ev = "Stopped" -> Upd(s, e.m, [q EXCEPT !.close = "closed"])
    [] e.ev = "Quiet" -> Upd(s, e.m, [q EXCEPT !.close = "quiet"])
    [] e.ev = "Mute" -> Upd(s, e.m, [q EXCEPT !.mute = TRUE])
    [] OTHER -> s
=============================================================================
