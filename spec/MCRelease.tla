------------------------------ MODULE MCRelease -----------------------------
(* The design of healer's handles.  A handle owns a pool (one connection per  *)
(* broker, opened when it is first needed, opened again when it was lost) and *)
(* perhaps a connection of its own to the leader, which is replaced when the  *)
(* leader moves; a worker asks over them until it is told to stop.  A socket  *)
(* is held until the client itself closes it, whatever the broker does.       *)
EXTENDS Release

CONSTANTS Handles, Nodes, MaxOps, Bug

VARIABLES s, bad,
          life,      \* handle -> "none" | "making" | "live" | "closing" | "gone"
          pool,      \* handle -> node -> socket (0: none)
          lead,      \* handle -> socket (0: none)
          at,        \* handle -> the broker `lead` goes to
          leader,    \* the broker that leads
          work,      \* handle -> the worker runs
          socks,     \* sockets the client side holds
          lost,      \* those the broker has closed
          next, nops

vars == <<s, bad, life, pool, lead, at, leader, work, socks, lost, next, nops>>

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF RMay(r.s, Head(evs)) THEN [s |-> RDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad
Count == nops < MaxOps /\ nops' = nops + 1
Opened(n) == [ev |-> "Open", n |-> n]
NoPool == [n \in Nodes |-> 0]

Init ==
  /\ s = RStart(<<>>) /\ bad = <<>>
  /\ life = [h \in Handles |-> "none"]
  /\ pool = [h \in Handles |-> NoPool]
  /\ lead = [h \in Handles |-> 0]
  /\ at = [h \in Handles |-> 0]
  /\ leader \in Nodes
  /\ work = [h \in Handles |-> FALSE]
  /\ socks = {} /\ lost = {} /\ next = 1 /\ nops = 0

(* a handle is made: the first broker that answers tells about the cluster    *)
Begin(h) ==
  /\ life[h] = "none" /\ Count
  /\ life' = [life EXCEPT ![h] = "making"]
  /\ Emit(<<[ev |-> "Make", h |-> h, kind |-> "any"]>>)
  /\ UNCHANGED <<pool, lead, at, leader, work, socks, lost, next>>
Bootstrap(h) ==
  /\ life[h] = "making"
  /\ \E n \in Nodes :
       \/ /\ life' = [life EXCEPT ![h] = "live"] /\ work' = [work EXCEPT ![h] = TRUE]
          /\ pool' = [pool EXCEPT ![h][n] = next] /\ socks' = socks \union {next} /\ next' = next + 1
          /\ Emit(<<Opened(n), [ev |-> "Made", h |-> h, ok |-> TRUE]>>)
       \/ (* it connects, but the answer is of no use                         *)
          /\ life' = [life EXCEPT ![h] = "gone"] /\ next' = next + 1
          /\ socks' = IF Bug = "failed" THEN socks \union {next} ELSE socks
          /\ Emit(<<Opened(n), [ev |-> "Made", h |-> h, ok |-> FALSE]>>)
          /\ UNCHANGED <<pool, work>>
  /\ UNCHANGED <<lead, at, leader, lost, nops>>

Running(h) == work[h] /\ (life[h] \in {"live", "closing"} \/ Bug \in {"undead", "nowait"})
(* the worker asks a broker of the pool                                       *)
Ask(h, n) ==
  /\ Running(h)
  /\ LET c == pool[h][n] IN
     IF c # 0 /\ c \notin lost THEN UNCHANGED <<pool, socks, next>> /\ Emit(<<>>)
     ELSE IF c # 0 /\ Bug # "keepdead" THEN  (* the loss is noticed: closed *)
            /\ socks' = socks \ {c} /\ pool' = [pool EXCEPT ![h][n] = 0] /\ UNCHANGED next /\ Emit(<<>>)
     ELSE /\ next' = next + 1 /\ pool' = [pool EXCEPT ![h][n] = next] /\ socks' = socks \union {next}
          /\ Emit(<<Opened(n)>>)
  /\ Count
  /\ UNCHANGED <<life, lead, at, leader, work, lost>>
(* the worker follows the leader over a connection of its own                 *)
Follow(h) ==
  /\ Running(h) /\ Count
  /\ (lead[h] = 0 \/ at[h] # leader \/ lead[h] \in lost)
  /\ lead' = [lead EXCEPT ![h] = next] /\ at' = [at EXCEPT ![h] = leader] /\ next' = next + 1
  /\ socks' = (IF Bug = "forget" THEN socks ELSE socks \ {lead[h]}) \union {next}
  /\ Emit(<<Opened(leader)>>)
  /\ UNCHANGED <<life, pool, leader, work, lost>>

Move == Count /\ \E n \in Nodes : leader' = n /\ n # leader
        /\ Emit(<<>>) /\ UNCHANGED <<life, pool, lead, at, work, socks, lost, next>>
Lose == Count /\ \E c \in socks \ lost : lost' = lost \union {c}
        /\ Emit(<<>>) /\ UNCHANGED <<life, pool, lead, at, leader, work, socks, next>>

(* closing: the worker is stopped first, then everything is closed            *)
Close(h) ==
  /\ life[h] = "live" /\ life' = [life EXCEPT ![h] = "closing"]
  /\ Emit(<<>>) /\ UNCHANGED <<pool, lead, at, leader, work, socks, lost, next, nops>>
Stop(h) ==
  /\ life[h] = "closing" /\ work[h] /\ Bug # "undead"
  /\ work' = [work EXCEPT ![h] = FALSE]
  /\ Emit(<<>>) /\ UNCHANGED <<life, pool, lead, at, leader, socks, lost, next, nops>>
Release1(h) ==
  /\ life[h] = "closing" /\ (~work[h] \/ Bug \in {"undead", "nowait"})
  /\ LET mine == (IF Bug = "nopool" THEN {} ELSE {pool[h][n] : n \in Nodes}) \union (IF Bug = "nolead" THEN {} ELSE {lead[h]}) IN
     socks' = socks \ mine
  /\ pool' = [pool EXCEPT ![h] = NoPool] /\ lead' = [lead EXCEPT ![h] = 0]
  /\ life' = [life EXCEPT ![h] = "gone"]
  /\ Emit(<<[ev |-> "Shut", h |-> h]>>)
  /\ UNCHANGED <<at, leader, work, lost, next, nops>>
Rest ==
  /\ \A h \in Handles : life[h] \in {"none", "gone"}
  /\ Emit(<<[ev |-> "Rest", held |-> Cardinality(socks)],
            (* calm: nothing is left that would connect                         *)
            [ev |-> "Still", held |-> Cardinality(socks), calm |-> \A h \in Handles : ~work[h]]>>)
  /\ UNCHANGED <<life, pool, lead, at, leader, work, socks, lost, next, nops>>

Next ==
  /\ bad = <<>>
  /\ \/ \E h \in Handles : Begin(h) \/ Bootstrap(h) \/ Follow(h) \/ Close(h) \/ Stop(h) \/ Release1(h) \/ (\E n \in Nodes : Ask(h, n))
     \/ Move \/ Lose \/ Rest

Refused == bad = <<>>
(* every socket has an owner who will close it                                *)
Owned == \A c \in socks : \E h \in Handles : life[h] \in {"live", "closing"} /\ (c = lead[h] \/ \E n \in Nodes : pool[h][n] = c)
=============================================================================
