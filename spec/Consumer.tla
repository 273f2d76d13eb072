------------------------------ MODULE Consumer ------------------------------
(* A consumer of one or several partitions, as seen by the brokers (fetches,  *)
(* offset lookups, commits, with their answers), by the application           *)
(* (deliveries, stop) and by the environment (records stored, log trimmed).   *)
(*                                                                            *)
(*   KMay(s, e)   the specification allows event e in state s                 *)
(*   KDo(s, e)    the state after e                                           *)
(*                                                                            *)
(* Per partition the state keeps the visible records stored so far and a      *)
(* queue of segments: runs of records that are due to the application, in     *)
(* order.  There is one open segment from the start position on; an           *)
(* out-of-range reset closes it at the position reached and opens another at  *)
(* the offset the broker gave.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
G(p, c) == (Prop = p \/ Prop = "ALL") => c
About(S) == Prop \in S \cup {"ALL"}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Fresh ==
  [ recs  |-> <<>>,     \* visible records [off, d], in offset order
    hi    |-> 0,        \* log end
    segs  |-> <<>>,     \* due to the application: [i: next, from: offset, n: last or -1]
    pos   |-> -1,       \* offset of the last fetch
    oor   |-> FALSE,    \* that fetch was answered "out of range"
    got   |-> {},       \* ends of the log the broker gave since
    cm    |-> {},       \* committed offsets the coordinator gave (-1: none)
    ends  |-> {},       \* ends of the log given before the first fetch
    floor |-> -1,       \* last committed offset, or the start
    old   |-> -1,       \* highest position before an out-of-range reset
    top   |-> -1 ]      \* one past the last delivered record

KStart(cfg) ==
  [ start |-> cfg.start, group |-> cfg.group, auto |-> cfg.auto, cap |-> cfg.cap,
    part  |-> [p \in {cfg.parts[i] : i \in 1..Len(cfg.parts)} |-> Fresh],
    paused |-> FALSE, stopped |-> FALSE, quiet |-> FALSE, late |-> 0 ]

(* How many records lie below an offset (they are sorted).                    *)
RECURSIVE Search(_, _, _, _)
Search(recs, off, a, b) ==
  IF a > b THEN a - 1
  ELSE LET m == (a + b) \div 2 IN
       IF recs[m].off < off THEN Search(recs, off, m + 1, b) ELSE Search(recs, off, a, m - 1)
Below(recs, off) == Search(recs, off, 1, Len(recs))

(* The records a segment still owes the application: From..To, by index.      *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
From(q, g) == Max2(g.i, Below(q.recs, g.from) + 1)
To(q, g) == IF g.n < 0 THEN Len(q.recs) ELSE g.n
Spent(q, g) == From(q, g) > To(q, g)

(* Segments with nothing left to deliver go, except the open one.             *)
RECURSIVE Shed(_, _)
Shed(q, segs) == IF Len(segs) > 1 /\ Spent(q, Head(segs)) THEN Shed(q, Tail(segs)) ELSE segs

(* Records below off that are due and not yet delivered.                      *)
RECURSIVE SumUndelivered(_, _, _)
SumUndelivered(q, segs, off) ==
  IF segs = <<>> THEN 0
  ELSE Max2(0, Min2(To(q, Head(segs)), Below(q.recs, off)) - From(q, Head(segs)) + 1)
       + SumUndelivered(q, Tail(segs), off)
Undelivered(q, off) == SumUndelivered(q, q.segs, off)

(* Handed over but not yet seen by the application: what the channel holds    *)
(* and, while it runs, the message the application is taking.                 *)
Slack(s) == IF s.paused THEN s.cap ELSE s.cap + 1

(* Where consumption may start, given the answers so far.                     *)
Starts(s, q) ==
  IF s.start >= 0 THEN {s.start}
  ELSE IF s.group
       THEN { c \in q.cm : c >= 0 } \cup (IF -1 \in q.cm THEN q.ends ELSE {})
       ELSE q.ends

Wanted(s) == IF s.start = -2 THEN -2 ELSE -1

Known(s, e) == e.p \in DOMAIN s.part

FetchMay(s, q, e) ==
  /\ G("C07", e.maxb > 0)
  /\ IF q.pos < 0
     THEN /\ G("C02", e.off \in Starts(s, q))
     ELSE LET jump == q.oor /\ e.off \in q.got IN
          /\ G("C03", jump \/ e.off >= q.pos)
          /\ G("C01", jump \/ (/\ e.off >= q.pos
                               /\ e.off = q.pos \/ e.off <= q.hi
                               /\ Undelivered(q, e.off) <= s.cap + 1))
          \* a position that is out of range can only be left for what the broker gave
          /\ G("C03", jump \/ ~q.oor \/ e.off = q.pos)

DeliverMay(s, q, e) ==
  LET segs == Shed(q, q.segs)
      j == Below(q.recs, e.off + 1) IN        \* the last record at or below e.off
  /\ segs # <<>>
  /\ IF j = 0 THEN FALSE ELSE q.recs[j].off = e.off      \* never invented
  /\ LET g == Head(segs)  i == From(q, g) IN
     /\ G("C01", ~Spent(q, g) /\ j = i)
     /\ G("C05", q.recs[j].d = e.d /\ j <= i)
     /\ G("C07", j <= i)                                 \* nothing visible is passed over

CommitMay(s, q, e) ==
  /\ G("C04", e.mine /\ e.off >= 0)
  /\ G("C03", e.off >= 0)
  /\ IF q.pos < 0
     THEN G("C04", e.off \in Starts(s, q)) /\ G("C02", e.off \in Starts(s, q))
     ELSE G("C04", \/ q.oor /\ e.off \in q.got         \* where the reset goes
                   \/ /\ e.off >= q.floor
                      /\ \/ Undelivered(q, e.off) <= Slack(s)
                         \/ e.off <= q.old)

KMay(s, e) ==
  CASE e.ev \in {"Store", "Trim", "Begin", "Env", "Pause", "Resume", "Healthy",
                 "Stop", "Stopped", "Quiet", "Done"} -> TRUE
    [] e.ev = "Fetch" ->
         /\ Known(s, e)
         /\ FetchMay(s, s.part[e.p], e)
         /\ G("C06", ~s.quiet /\ (s.stopped => s.late = 0))
    [] e.ev = "FetchResp" -> TRUE
    [] e.ev = "ListReq" ->
         /\ Known(s, e)
         /\ IF s.part[e.p].pos < 0
            THEN G("C02", s.start < 0 /\ e.ts = s.start
                          /\ (s.group => -1 \in s.part[e.p].cm))
            ELSE G("C03", e.ts = Wanted(s))
    [] e.ev = "ListResp" -> TRUE
    [] e.ev = "OffReq" -> Known(s, e) /\ G("C02", e.mine)
    [] e.ev = "OffResp" -> TRUE
    [] e.ev = "Commit" ->
         /\ G("C04", Known(s, e))
         /\ Known(s, e) => CommitMay(s, s.part[e.p], e)
         /\ G("C06", ~s.quiet)
    [] e.ev = "Deliver" ->
         /\ Known(s, e)
         /\ DeliverMay(s, s.part[e.p], e)
         /\ G("C06", ~s.quiet)
    [] e.ev = "DeliverErr" -> Prop \notin {"C01", "C05", "ALL"}
    [] e.ev = "End" ->
         About({"C01", "C02", "C03", "C05", "C07"}) =>
           \A p \in DOMAIN s.part :
             LET q == s.part[p]  segs == Shed(q, q.segs) IN
             Len(segs) = 1 /\ Spent(q, Head(segs))
    [] e.ev = "Settled" ->
         G("C04", (s.auto /\ s.group) => e.c >= s.part[e.p].top)
    [] e.ev = "Final" ->
         G("C06", (s.auto /\ s.group /\ e.fair) => e.c >= s.part[e.p].top)
    [] e.ev = "Hang" ->
         IF e.in = "stop" THEN ~About({"C06"}) ELSE ~About({"C01", "C02", "C03", "C06", "C07"})
    [] e.ev = "NoHandle" -> Prop \notin {"C01", "C02", "ALL"}
    [] OTHER -> FALSE

(* The position moves; the first fetch opens the first segment, a reset       *)
(* closes it and opens another.                                               *)
FetchDo(q, e) ==
  IF q.pos < 0
  THEN [q EXCEPT !.pos = e.off, !.floor = IF @ < 0 THEN e.off ELSE @, !.oor = FALSE,
                 !.segs = <<[i |-> 1, from |-> e.off, n |-> -1]>>]
  ELSE IF q.oor /\ e.off \in q.got
  THEN LET n == Len(q.segs) IN
       [q EXCEPT !.pos = e.off, !.oor = FALSE, !.got = {},
                 !.old = IF q.pos > @ THEN q.pos ELSE @,
                 !.floor = IF e.off < @ THEN e.off ELSE @,
                 !.segs = Append([q.segs EXCEPT ![n].n = Below(q.recs, q.pos)],
                                 [i |-> 1, from |-> e.off, n |-> -1])]
  ELSE [q EXCEPT !.pos = IF e.off > @ THEN e.off ELSE @, !.oor = FALSE, !.got = {}]

(* Deliver: the head segment goes on behind the delivered record.             *)
DeliverDo(q, e) ==
  LET segs == Shed(q, q.segs)
      j == Below(q.recs, e.off + 1) IN
  [q EXCEPT !.segs = IF segs = <<>> THEN segs
                     ELSE [segs EXCEPT ![1].i = IF j + 1 > @ THEN j + 1 ELSE @],
            !.top = e.off + 1]

On(s, e, q) == [s EXCEPT !.part = Put(@, e.p, q)]

KDo(s, e) ==
  IF e.ev \in {"Store", "Trim", "Fetch", "FetchResp", "ListResp", "OffResp", "Commit", "Deliver"}
     /\ ~Known(s, e) THEN s
  ELSE
  CASE e.ev = "Store" ->
         LET q == s.part[e.p] IN
         On(s, e, [q EXCEPT !.recs = @ \o e.recs, !.hi = e.hi])
    [] e.ev = "Trim" ->
         LET q == s.part[e.p] IN
         On(s, e, [q EXCEPT !.hi = IF e.lo > @ THEN e.lo ELSE @])
    [] e.ev = "Fetch" ->
         [On(s, e, FetchDo(s.part[e.p], e)) EXCEPT !.late = IF s.stopped THEN @ + 1 ELSE @]
    [] e.ev = "FetchResp" ->
         On(s, e, [s.part[e.p] EXCEPT !.oor = (e.code = 1)])
    [] e.ev = "ListResp" /\ e.code = 0 /\ e.full ->
         LET q == s.part[e.p] IN
         On(s, e, IF q.pos < 0 THEN [q EXCEPT !.ends = @ \cup {e.off}]
                  ELSE [q EXCEPT !.got = @ \cup {e.off}])
    [] e.ev = "OffResp" /\ e.code = 0 /\ e.full ->
         On(s, e, [s.part[e.p] EXCEPT !.cm = @ \cup {IF e.off >= 0 THEN e.off ELSE -1}])
    [] e.ev = "Commit" ->
         LET q == s.part[e.p] IN
         \* one from before a reset, overtaken by it, says nothing about the new position
         On(s, e, [q EXCEPT !.floor =
                     IF (q.oor /\ e.off \in q.got) \/ (e.off > @ /\ ~(e.off <= q.old /\ e.off > q.pos))
                     THEN e.off ELSE @])
    [] e.ev = "Deliver" -> On(s, e, DeliverDo(s.part[e.p], e))
    [] e.ev = "Pause"   -> [s EXCEPT !.paused = TRUE]
    [] e.ev = "Resume"  -> [s EXCEPT !.paused = FALSE]
    [] e.ev = "Stopped" -> [s EXCEPT !.stopped = TRUE]
    [] e.ev = "Quiet"   -> [s EXCEPT !.quiet = TRUE]
    [] OTHER -> s
=============================================================================
