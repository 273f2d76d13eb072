---------------------------- MODULE MCProducer ------------------------------
(* The design of healer's producer of one partition: callers, the flush       *)
(* timer and close share one buffer under one lock; whoever fills the buffer  *)
(* or flushes it sends the batch while holding the lock and reports what came *)
(* of it.  Every observable step is submitted to the specification Producer.  *)
EXTENDS Producer

CONSTANTS Callers,       \* their names
          NAdds,         \* messages per caller
          Max,           \* records per batch
          WithTimer, MaxFlush, MaxFaults, MaxClose,
          Bug            \* "none" is the design; the others show the specification bites

VARIABLES s, bad, pc, todo, lock, buf, batch, res, closed, conn, nf, nfl, ncl, over

vars == <<s, bad, pc, todo, lock, buf, batch, res, closed, conn, nf, nfl, ncl, over>>

Who == Callers \cup (IF WithTimer THEN {"timer"} ELSE {}) \cup {"closer"}

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF PMay(r.s, Head(evs)) THEN [s |-> PDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad
Quiet == UNCHANGED <<s, bad>>

Init == /\ s = PDo(PStart([max |-> Max, np |-> 1, only |-> 0, timer |-> WithTimer, acks |-> -1, tmo |-> 1, attr |-> 0]),
                   [ev |-> "Leader", p |-> 0, n |-> 1])
        /\ bad = <<>> /\ pc = [w \in Who |-> "idle"] /\ todo = [c \in Callers |-> NAdds]
        /\ lock = "free" /\ buf = <<>> /\ batch = [w \in Who |-> <<>>] /\ res = [w \in Who |-> "ok"]
        /\ closed = FALSE /\ conn = "up" /\ nf = 0 /\ nfl = 0 /\ ncl = 0 /\ over = FALSE

Name(c, k) == c \o ToString(k)

(* ----------------------------------------------------------- callers      *)
Add(c) ==
  /\ pc[c] = "idle" /\ todo[c] > 0
  /\ todo' = [todo EXCEPT ![c] = @ - 1] /\ pc' = [pc EXCEPT ![c] = "add"]
  /\ Emit(<<[ev |-> "Add", c |-> c, d |-> Name(c, todo[c]), keyed |-> FALSE, hh |-> 0, hl |-> 0]>>)
  /\ UNCHANGED <<lock, buf, batch, res, closed, conn, nf, nfl, ncl, over>>

AddLocked(c) ==
  /\ pc[c] = "add" /\ lock = "free"
  /\ IF closed /\ Bug # "acceptlate"
     THEN /\ pc' = [pc EXCEPT ![c] = "addret"] /\ res' = [res EXCEPT ![c] = "closed"]
          /\ UNCHANGED <<lock, buf, batch>>
     ELSE LET b == Append(buf, Name(c, todo[c] + 1)) IN
          IF Len(b) >= Max
          THEN /\ batch' = [batch EXCEPT ![c] = b] /\ buf' = <<>>
               /\ lock' = IF Bug = "nolock" THEN "free" ELSE c
               /\ pc' = [pc EXCEPT ![c] = "send"] /\ UNCHANGED res
          ELSE /\ buf' = b /\ pc' = [pc EXCEPT ![c] = "addret"] /\ res' = [res EXCEPT ![c] = "ok"]
               /\ UNCHANGED <<lock, batch>>
  /\ Quiet /\ UNCHANGED <<todo, closed, conn, nf, nfl, ncl, over>>

Flush(c) ==
  /\ pc[c] = "idle" /\ nfl < MaxFlush /\ nfl' = nfl + 1
  /\ pc' = [pc EXCEPT ![c] = "flush"]
  /\ Emit(<<[ev |-> "Flush", c |-> c]>>)
  /\ UNCHANGED <<todo, lock, buf, batch, res, closed, conn, nf, ncl, over>>

Tick == /\ WithTimer /\ pc["timer"] = "idle" /\ ~closed /\ buf # <<>>
        /\ pc' = [pc EXCEPT !["timer"] = "flush"]
        /\ Quiet /\ UNCHANGED <<todo, lock, buf, batch, res, closed, conn, nf, nfl, ncl, over>>

FlushLocked(w) ==
  /\ pc[w] = "flush" /\ lock = "free"
  /\ IF buf = <<>>
     THEN /\ pc' = [pc EXCEPT ![w] = "flushret"] /\ res' = [res EXCEPT ![w] = "ok"] /\ UNCHANGED <<lock, buf, batch>>
     ELSE /\ batch' = [batch EXCEPT ![w] = buf] /\ buf' = <<>> /\ lock' = w
          /\ pc' = [pc EXCEPT ![w] = "sendf"] /\ UNCHANGED res
  /\ Quiet /\ UNCHANGED <<todo, closed, conn, nf, nfl, ncl, over>>

Close == /\ pc["closer"] = "idle" /\ ncl < MaxClose /\ ncl' = ncl + 1
         /\ pc' = [pc EXCEPT !["closer"] = "close"]
         /\ Emit(<<[ev |-> "Close", c |-> "closer"]>>)
         /\ UNCHANGED <<todo, lock, buf, batch, res, closed, conn, nf, nfl, over>>

CloseLocked ==
  /\ pc["closer"] = "close" /\ lock = "free" /\ closed' = TRUE
  /\ IF buf = <<>> \/ closed \/ Bug = "forget"
     THEN pc' = [pc EXCEPT !["closer"] = "closeret"] /\ buf' = (IF Bug = "forget" THEN <<>> ELSE buf)
          /\ UNCHANGED <<lock, batch>>
     ELSE /\ batch' = [batch EXCEPT !["closer"] = buf] /\ buf' = <<>> /\ lock' = "closer"
          /\ pc' = [pc EXCEPT !["closer"] = "sendc"]
  /\ Quiet /\ UNCHANGED <<todo, res, conn, nf, nfl, ncl, over>>

(* ----------------------------------------------------------- the wire     *)
Produce(w) == [ev |-> "Produce", n |-> 1, p |-> 0, recs |-> batch[w], bad |-> <<>>, cnt |-> Len(batch[w]),
               last |-> Len(batch[w]) - 1, base |-> 0, deltas |-> [i \in 1..Len(batch[w]) |-> i - 1],
               attr |-> 0, acks |-> -1, tmo |-> 1, mine |-> TRUE]

Break == /\ conn = "up" /\ nf < MaxFaults /\ nf' = nf + 1 /\ conn' = "broken"
         /\ Emit(<<[ev |-> "Trouble"]>>)
         /\ UNCHANGED <<pc, todo, lock, buf, batch, res, closed, nfl, ncl, over>>

Retn(w) == CASE pc[w] = "send" -> "addret" [] pc[w] = "sendf" -> "flushret" [] pc[w] = "sendc" -> "closeret"
Finish(w, r) ==
  /\ pc' = [pc EXCEPT ![w] = Retn(w)] /\ res' = [res EXCEPT ![w] = IF Bug = "swallow" THEN "ok" ELSE r]
  /\ lock' = IF lock = w THEN "free" ELSE lock
  /\ batch' = [batch EXCEPT ![w] = <<>>]
  /\ buf' = IF r = "err" /\ Bug = "requeue" THEN batch[w] \o buf ELSE buf
Send(w) ==
  /\ pc[w] \in {"send", "sendf", "sendc"}
  /\ \/ /\ conn = "broken" /\ conn' = "up" /\ Quiet /\ Finish(w, "err") /\ UNCHANGED nf
     \/ /\ conn = "up" /\ UNCHANGED <<conn, nf>> /\ Finish(w, "ok")
        /\ Emit(<<Produce(w), [ev |-> "Answer", p |-> 0, code |-> 0]>> \o
                (IF Bug = "twice" THEN <<Produce(w)>> ELSE <<>>))
     \/ /\ conn = "up" /\ UNCHANGED conn /\ nf < MaxFaults /\ nf' = nf + 1 /\ Finish(w, "err")
        /\ \/ Emit(<<Produce(w), [ev |-> "Answer", p |-> 0, code |-> 6]>>)
           \/ Emit(<<Produce(w), [ev |-> "Lost", p |-> 0]>>)
  /\ UNCHANGED <<todo, closed, nfl, ncl, over>>

Ret(w) ==
  /\ pc[w] \in {"addret", "flushret", "closeret"} /\ pc' = [pc EXCEPT ![w] = "idle"]
  /\ CASE w = "timer" -> Quiet
       [] w = "closer" -> Emit(<<[ev |-> "CloseRet", c |-> w]>>)
       [] pc[w] = "addret" -> Emit(<<[ev |-> "Ret", c |-> w, r |-> res[w]]>>)
       [] pc[w] = "flushret" -> Emit(<<[ev |-> "FlushRet", c |-> w, r |-> res[w]]>>)
  /\ UNCHANGED <<todo, lock, buf, batch, res, closed, conn, nf, nfl, ncl, over>>

(* everything has come to rest after a close                                  *)
Rest == /\ ~over /\ \A w \in Who : pc[w] = "idle" /\ \A c \in Callers : todo[c] = 0
        /\ closed /\ over' = TRUE
        /\ Emit(<<[ev |-> "End"], [ev |-> "Closed"]>>)
        /\ UNCHANGED <<pc, todo, lock, buf, batch, res, closed, conn, nf, nfl, ncl>>

Done == \A w \in Who : pc[w] = "idle"
Step == \/ \E c \in Callers : Add(c) \/ AddLocked(c) \/ Flush(c)
        \/ Tick \/ Close \/ CloseLocked \/ Break \/ Rest
        \/ \E w \in Who : FlushLocked(w) \/ Send(w) \/ Ret(w)
Next == Step \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Refused == bad = <<>>
(* nothing accepted is forgotten: it was sent, it waits in the buffer or with *)
(* whoever sends it, or its loss was told                                      *)
Kept == \A i \in DOMAIN s.calls :
          LET m == s.calls[i] IN
          (m.res = "ok" /\ ~m.sent /\ ~m.maybe /\ ~s.trouble) =>
             \/ \E k \in DOMAIN buf : buf[k] = m.d
             \/ \E w \in Who : \E k \in DOMAIN batch[w] : batch[w][k] = m.d
Mutex == \A w, v \in Who : (pc[w] \in {"send", "sendf", "sendc"} /\ pc[v] \in {"send", "sendf", "sendc"}) => w = v

(* with a timer, everything accepted is sent, whoever goes on calling         *)
Fair == /\ Spec /\ WF_vars(Tick) /\ WF_vars(CloseLocked)
        /\ \A w \in Who : WF_vars(FlushLocked(w)) /\ WF_vars(Send(w)) /\ WF_vars(Ret(w))
        /\ \A c \in Callers : WF_vars(AddLocked(c))
Accepted(i) == IF i \in DOMAIN s.calls THEN s.calls[i].res = "ok" ELSE FALSE
Gone(i) == IF i \in DOMAIN s.calls THEN s.calls[i].sent \/ s.trouble ELSE FALSE
AllSent == \A i \in 1..(NAdds * Cardinality(Callers)) : Accepted(i) ~> Gone(i)
=============================================================================
