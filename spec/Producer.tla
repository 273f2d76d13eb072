------------------------------ MODULE Producer ------------------------------
(* A producer, as seen by its callers (adds, flushes, close, with their        *)
(* results) and by the brokers (produce requests, decoded independently).     *)
(*                                                                            *)
(*   PMay(s, e)   the specification allows event e in state s                 *)
(*   PDo(s, e)    the state after e                                           *)
(*                                                                            *)
(* Time is the number of events so far: an add that returned (ret) before     *)
(* another was called (at) was accepted before it.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
G(p, c) == (Prop = p \/ Prop = "ALL") => c
About(S) == Prop \in S \cup {"ALL"}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

PStart(cfg) ==
  [ max    |-> cfg.max,       \* records per batch
    np     |-> cfg.np,        \* partitions
    only   |-> cfg.only,      \* the one partition of a partition producer, or -1
    timer  |-> cfg.timer,     \* the flush interval is short enough to matter
    acks   |-> cfg.acks, tmo |-> cfg.tmo, attr |-> cfg.attr,
    t      |-> 1,
    calls  |-> <<>>,          \* [c, d, keyed, part, at, ret, res, sent, maybe, owe]
    open   |-> <<>>,          \* caller -> index of its call under way
    last   |-> <<>>,          \* <<keyed, partition>> -> latest call among those sent
    led    |-> <<>>,          \* partition -> nodes that ever led it
    lead   |-> <<>>,          \* partition -> its leader
    since  |-> <<>>,          \* partition -> nodes that led it since the last refresh
    fresh  |-> 0,             \* time of the last refresh known to be through
    trouble |-> FALSE,        \* something is broken: unseen failures are possible
    flushes |-> <<>>,         \* caller -> time its flush began
    owe    |-> 0,             \* failed partial batches a flush has to report
    wait   |-> <<>>,          \* partition -> batch without an answer yet
    closing |-> 0,            \* closes under way
    asked  |-> FALSE,         \* close was called
    closed |-> 0,             \* when a close had returned
    over   |-> FALSE ]

(* Where a key goes: the 32-bit hash, given in halves, modulo the partitions. *)
HashPart(e, np) == (((e.hh % np) * (65536 % np)) + (e.hl % np)) % np

(* ------------------------------------------------------------- matching    *)
(* The call a sent record belongs to: the earliest with the same contents     *)
(* that was not sent yet.                                                     *)
FindCall(s, d, p) ==
  LET S == {i \in DOMAIN s.calls : LET m == s.calls[i] IN
              ~m.sent /\ m.d = d /\ m.res \notin {"closed"} /\ (~m.keyed \/ m.part = p \/ ~About({"P02"}))} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(* q = [s, ok, order, last]: ok if every record was found, order if none was  *)
(* overtaken.                                                                 *)
RECURSIVE Match(_, _, _, _)
Match(q, recs, p, k) ==
  IF k > Len(recs) THEN q
  ELSE LET i == FindCall(q.s, recs[k], p) IN
       IF i = 0 THEN [q EXCEPT !.ok = FALSE]
       ELSE LET m  == q.s.calls[i]
                ln == <<m.keyed, p>>
                la == Get(q.s.last, ln, 0) IN
            Match([ s |-> [q.s EXCEPT !.calls[i].sent = TRUE,
                                      !.last = Put(@, ln, IF m.at > la THEN m.at ELSE la)],
                    ok |-> q.ok,
                    order |-> q.order /\ ~(m.ret > 0 /\ m.ret < la),
                    fresh |-> q.fresh /\ m.at > q.s.fresh,
                    final |-> i ],
                  recs, p, k + 1)
Sent(s, e) == Match([s |-> s, ok |-> TRUE, order |-> TRUE, fresh |-> TRUE, final |-> 0], e.recs, e.p, 1)

Numbered(ds) == \A j \in 1..Len(ds) : ds[j] = j - 1

ProduceMay(s, e) ==
  LET q == Sent(s, e)  n == Len(e.recs) IN
  /\ G("P03", /\ e.bad = <<>> /\ e.mine /\ n > 0
              /\ e.cnt = n /\ e.last = n - 1 /\ e.base = 0 /\ Numbered(e.deltas) /\ Len(e.deltas) = n
              /\ e.attr = s.attr /\ e.acks = s.acks /\ e.tmo = s.tmo
              /\ q.ok)
  /\ G("P01", q.ok /\ q.order /\ n <= s.max)
  /\ G("P02", /\ q.ok
              /\ s.only < 0 \/ e.p = s.only
              /\ e.n \in Get(s.led, e.p, {})
              /\ (q.fresh /\ s.fresh > 0) => e.n \in Get(s.since, e.p, {}))
  /\ G("P04", ~s.over /\ q.ok)

(* A batch failed: who has to be told.  A full batch was sent by the add of   *)
(* its last record, any other by a flush (or by the timer, by close, by a     *)
(* refresh, which have no caller).                                            *)
Fails(s, p) ==
  LET b == Get(s.wait, p, [n |-> 0, final |-> 0]) IN
  IF b.n = 0 \/ s.acks = 0 THEN s
  ELSE [ (IF b.n = s.max
          THEN (IF s.calls[b.final].ret = 0 THEN [s EXCEPT !.calls[b.final].owe = TRUE] ELSE s)
          ELSE IF s.timer \/ s.asked \/ s.only < 0 THEN s
          ELSE [s EXCEPT !.owe = @ + 1])
         EXCEPT !.wait = Put(@, p, [n |-> 0, final |-> 0]) ]

(* Messages that nobody can account for any more.                             *)
Doubt(s) == [s EXCEPT !.calls = [i \in DOMAIN @ |-> IF @[i].sent THEN @[i] ELSE [@[i] EXCEPT !.maybe = TRUE]]]

Due(s, since) ==        \* accepted before since, and not sent
  {i \in DOMAIN s.calls : /\ s.calls[i].res = "ok" /\ s.calls[i].ret < since
                          /\ ~s.calls[i].sent /\ ~s.calls[i].maybe}

(* Losses can go unseen: a failing flush of the timer, of close or of a       *)
(* refresh has nobody to report to.                                           *)
Busy(s, c) ==           \* somebody else is at it: his failure is still to be told
  \/ DOMAIN s.flushes \ {c} # {}
  \/ \E x \in DOMAIN s.open : s.calls[s.open[x]].ret = 0
Leaky(s) == s.trouble /\ (s.timer \/ s.asked \/ s.only < 0)

RetMay(s, e) ==
  LET m == s.calls[s.open[e.c]] IN
  /\ e.r = "ok" =>
       /\ G("P01", ~m.owe)
       /\ G("P04", s.closed = 0 \/ m.at < s.closed)
  /\ e.r = "err" => G("P01", m.owe \/ s.trouble \/ (s.closed > 0 /\ m.at > s.closed))
  /\ e.r = "closed" => G("P01", s.asked /\ ~m.sent) /\ G("P04", s.asked /\ ~m.sent)

PMay(s, e) ==
  CASE e.ev \in {"Begin", "Env", "Leader", "Trouble", "Calm", "Refreshed", "Add", "Flush", "Answer", "Lost",
                 "Close", "Closed", "Done"} -> TRUE
    [] e.ev = "Ret" -> RetMay(s, e)
    [] e.ev = "Produce" -> ProduceMay(s, e)
    [] e.ev = "FlushRet" ->
         /\ (e.r = "ok" /\ s.only >= 0) => (Leaky(s) \/ (s.trouble /\ Busy(s, e.c)) \/ s.acks = 0 \/ G("P01", Due(s, s.flushes[e.c]) = {}))
         /\ e.r = "ok" => G("P01", s.owe < Cardinality(DOMAIN s.flushes))
         /\ e.r = "err" => G("P01", s.owe > 0 \/ s.trouble \/ s.timer \/ s.asked)
    [] e.ev = "CloseRet" -> Leaky(s) \/ s.acks = 0 \/ (G("P04", Due(s, s.t) = {}) /\ G("P01", Due(s, s.t) = {}))
    [] e.ev = "End" ->          \* time enough has passed for the timer
         Leaky(s) \/ ~About({"P01", "P02", "P03", "P04"}) \/ Due(s, s.t) = {}
    [] e.ev = "Hang" -> IF e.in = "close" THEN ~About({"P04"}) ELSE ~About({"P01", "P04"})
    [] e.ev = "NoHandle" -> ~About({"P01", "P02", "P03", "P04"})
    [] OTHER -> FALSE

Do1(s, e) ==
  CASE e.ev = "Leader" ->
         [s EXCEPT !.lead = Put(@, e.p, e.n), !.led = Put(@, e.p, Get(@, e.p, {}) \cup {e.n}),
                   !.since = Put(@, e.p, Get(@, e.p, {}) \cup {e.n})]
    [] e.ev = "Refreshed" ->
         [s EXCEPT !.fresh = s.t, !.since = [p \in DOMAIN s.lead |-> {s.lead[p]}]]
    [] e.ev = "Trouble" -> [(IF s.timer \/ s.asked THEN Doubt(s) ELSE s) EXCEPT !.trouble = TRUE]
    [] e.ev = "Calm" ->
         [(IF s.timer \/ s.asked \/ s.only < 0 THEN Doubt(s) ELSE s) EXCEPT !.trouble = FALSE]
    [] e.ev = "Add" ->
         [s EXCEPT !.calls = Append(@, [c |-> e.c, d |-> e.d, keyed |-> e.keyed, at |-> s.t,
                                        part |-> IF s.only >= 0 THEN s.only
                                                 ELSE IF e.keyed THEN HashPart(e, s.np) ELSE -1,
                                        ret |-> 0, res |-> "", sent |-> FALSE, maybe |-> FALSE, owe |-> FALSE]),
                   !.open = Put(@, e.c, Len(s.calls) + 1)]
    [] e.ev = "Ret" ->
         LET i == s.open[e.c]
             r == [s EXCEPT !.calls[i].ret = s.t, !.calls[i].res = e.r] IN
         \* an error without a request: whatever was buffered went with it
         IF e.r = "err" /\ ~s.calls[i].sent THEN Doubt(r) ELSE r
    [] e.ev = "Produce" ->
         LET q == Sent(s, e) IN
         [q.s EXCEPT !.wait = Put(@, e.p, [n |-> Len(e.recs), final |-> q.final])]
    [] e.ev = "Answer" -> IF e.code = 0 THEN [s EXCEPT !.wait = Put(@, e.p, [n |-> 0, final |-> 0])] ELSE Fails(s, e.p)
    [] e.ev = "Lost" -> Fails(s, e.p)
    [] e.ev = "Flush" -> [s EXCEPT !.flushes = Put(@, e.c, s.t)]
    [] e.ev = "FlushRet" ->
         LET r == [s EXCEPT !.flushes = [x \in DOMAIN @ \ {e.c} |-> @[x]],
                            !.owe = IF e.r = "err" /\ @ > 0 THEN @ - 1 ELSE @] IN
         IF e.r = "err" /\ s.owe = 0 THEN Doubt(r) ELSE r
    [] e.ev = "Close" -> [s EXCEPT !.asked = TRUE, !.closing = @ + 1]
    [] e.ev = "CloseRet" -> [(IF s.trouble THEN Doubt(s) ELSE s) EXCEPT !.closed = IF @ = 0 THEN s.t ELSE @]
    [] e.ev = "Closed" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s

PDo(s, e) == [Do1(s, e) EXCEPT !.t = s.t + 1]
=============================================================================
