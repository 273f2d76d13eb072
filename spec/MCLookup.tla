------------------------------ MODULE MCLookup ------------------------------
(* The design of healer's broker list: bootstrap from the addresses in order, *)
(* look things up at the known brokers in any order until one answers, learn  *)
(* of unknown ids by refreshing.  Brokers change their state and cut their    *)
(* connections between calls, the cluster grows.  Every observable step is    *)
(* submitted to the specification Lookup.                                     *)
EXTENDS Lookup

CONSTANTS Nodes, Modes, MaxShifts, MaxCalls, Bug

VARIABLES s, bad,
          up,              \* boot succeeded
          cctl,            \* the controller it was told
          info, conns,     \* the client: brokers it knows, connections it keeps (live or cut)
          dead,            \* kept connections that have been cut
          call, left, nc, ns

vars == <<s, bad, up, cctl, info, conns, dead, call, left, nc, ns>>

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF LMay(r.s, Head(evs)) THEN [s |-> LDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

Q(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
Req(n, api) == [ev |-> "Req", n |-> n, api |-> api]
Meta(n, code) == [ev |-> "Ans", n |-> n, api |-> "Metadata", code |-> code, node |-> 0, ctl |-> s.ctl,
                  brokers |-> IF s.mode[n] = "empty" THEN <<>> ELSE Q(s.reported)]
Coord(n, code) == [ev |-> "Ans", n |-> n, api |-> "FindCoordinator", code |-> code, node |-> IF code = 0 THEN 1 ELSE 0, ctl |-> 0, brokers |-> <<>>]

Listed(n) == [ev |-> "Ans", n |-> n, api |-> "ListGroups", code |-> 0, node |-> 0, ctl |-> 0, brokers |-> <<>>]

Hidden == {CHOOSE n \in Nodes : \A m \in Nodes : n >= m}
NoCall == [op |-> "none", id |-> 0]
Init == /\ s = [LStart([nodes |-> Q(Nodes), listed |-> Q(Nodes \ Hidden), ctl |-> 1]) EXCEPT !.mode = [n \in Nodes |-> "up"]]
        /\ bad = <<>> /\ up = FALSE /\ cctl = 0 /\ info = {} /\ conns = {} /\ dead = {}
        /\ call = NoCall /\ left = {} /\ nc = 0 /\ ns = 0

(* --------------------------------------------------------------- the cluster *)
Idle == call.op = "none"
Shift ==
  /\ Idle /\ ns < MaxShifts /\ ns' = ns + 1
  /\ \/ \E n \in Nodes, m \in Modes :
          /\ s.mode[n] # m
          /\ Emit(<<[ev |-> "Mode", n |-> n, m |-> m, cut |-> m = "down"]>>)
          /\ dead' = IF m = "down" THEN dead \cup (conns \cap {n}) ELSE dead
     \/ \E n \in Nodes : Emit(<<[ev |-> "Cut", n |-> n]>>) /\ dead' = dead \cup (conns \cap {n})
     \/ \E n \in Nodes : n # s.ctl /\ Emit(<<[ev |-> "Ctl", n |-> n]>>) /\ dead' = dead
     \/ s.reported # Nodes /\ Emit(<<[ev |-> "Listed", nodes |-> Q(Nodes)]>>) /\ dead' = dead
  /\ UNCHANGED <<up, cctl, info, conns, call, left, nc>>

(* ----------------------------------------------------------------- bootstrap *)
RECURSIVE Try(_)           \* the events of trying the addresses in order
Try(q) ==
  IF q = <<>> THEN <<[ev |-> "BootRet", ok |-> FALSE]>>
  ELSE LET n == Head(q)  m == s.mode[n] IN
       CASE m \in {"down"} -> Try(Tail(q))
         [] m \in {"silent", "closing"} -> <<Req(n, "ApiVersions")>> \o Try(Tail(q))
         [] m \in {"mute", "drop"} -> <<Req(n, "ApiVersions"), Req(n, "Metadata")>> \o Try(Tail(q))
         [] m = "empty" -> <<Req(n, "ApiVersions"), Req(n, "Metadata"), Meta(n, 0)>> \o
                           (IF Bug = "emptyok" THEN <<[ev |-> "BootRet", ok |-> TRUE]>> ELSE Try(Tail(q)))
         [] OTHER -> <<Req(n, "ApiVersions"), Req(n, "Metadata"), Meta(n, 0), [ev |-> "BootRet", ok |-> TRUE]>>
Reached(q) == \E i \in 1..Len(q) : Tells(s.mode[q[i]])
First(q) == q[CHOOSE i \in 1..Len(q) : Tells(s.mode[q[i]]) /\ \A j \in 1..(i - 1) : ~Tells(s.mode[q[j]])]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
BootUp ==
  /\ Idle /\ ~up /\ nc < MaxCalls /\ nc' = nc + 1
  /\ \E q \in {<<a>> : a \in Nodes} \cup {<<a, b>> : a \in Nodes, b \in Nodes} :
       LET t == IF Bug = "onlyfirst" THEN <<Head(q)>> ELSE IF Bug = "reverse" THEN Rev(q) ELSE q IN
       /\ Emit(<<[ev |-> "Boot", addrs |-> q]>> \o Try(t))
       /\ IF Reached(t) THEN up' = TRUE /\ cctl' = s.ctl /\ info' = s.reported /\ conns' = {First(t)} \cap s.reported /\ dead' = {}
          ELSE UNCHANGED <<up, cctl, info, conns, dead>>
  /\ UNCHANGED <<call, left, ns>>

(* ------------------------------------------------------------------- lookups *)
CallEv(op, id) == [ev |-> "Call", c |-> "c", op |-> op, id |-> id]
Ret(ok, node, code) == [ev |-> "Ret", c |-> "c", ok |-> ok, node |-> node, code |-> code]
Start(op, id) ==
  /\ Idle /\ up /\ nc < MaxCalls /\ nc' = nc + 1
  /\ call' = [op |-> op, id |-> id] /\ left' = info
  /\ Emit(<<CallEv(op, id)>>)
  /\ UNCHANGED <<up, cctl, info, conns, dead, ns>>
Finish(evs) == Emit(evs) /\ call' = NoCall /\ left' = {}

(* ask broker n: gone (no request arrives), fails after arriving, or answers  *)
Gone(n) == (n \in conns /\ n \in dead) \/ s.mode[n] = "down"
Opening(n) == IF n \in conns /\ n \notin dead THEN <<>> ELSE <<Req(n, "ApiVersions")>>
Broken(n) == s.mode[n] \in {"silent", "closing"}
Half(n) == s.mode[n] \in {"mute", "drop"} /\ call.op # "any"
Ask(n) ==
  /\ call.op \in {"meta", "coord", "any"} /\ n \in left
  /\ LET api == CASE call.op = "meta" -> "Metadata" [] call.op = "coord" -> "FindCoordinator" [] OTHER -> "ListGroups" IN
     \/ /\ Gone(n) /\ left' = left \ {n}            \* the error closes the connection; the next use opens one
        /\ conns' = IF Bug = "keepdead" THEN conns ELSE conns \ {n}
        /\ dead' = IF Bug = "keepdead" THEN dead ELSE dead \ {n}
        /\ UNCHANGED <<s, bad, call>>
     \/ /\ ~Gone(n) /\ (Broken(n) \/ Half(n)) /\ left' = left \ {n}
        /\ Emit(IF Broken(n) THEN (IF n \in conns THEN <<Req(n, api)>> ELSE <<Req(n, "ApiVersions")>>) ELSE Opening(n) \o <<Req(n, api)>>)
        /\ conns' = conns \cup (IF Half(n) THEN {n} ELSE {}) /\ dead' = dead
        /\ UNCHANGED call
     \/ /\ ~Gone(n) /\ ~Broken(n) /\ ~Half(n) /\ conns' = conns \cup {n} /\ dead' = dead
        /\ IF call.op = "any" THEN Finish(Opening(n) \o <<Req(n, api), Listed(n), Ret(TRUE, 0, 0)>>)
           ELSE IF call.op = "meta"
           THEN \E code \in {0, 3} :
                  IF s.mode[n] = "empty" THEN Finish(Opening(n) \o <<Req(n, api), Meta(n, 0), Ret(TRUE, 0, 0)>>)
                  ELSE IF code # 0 /\ Bug = "asknext"
                       THEN Emit(Opening(n) \o <<Req(n, api), Meta(n, code)>>) /\ left' = left \ {n} /\ UNCHANGED call
                       ELSE Finish(Opening(n) \o <<Req(n, api), Meta(n, code), Ret(code = 0 \/ Bug = "swallow", 0, IF Bug = "swallow" THEN 0 ELSE code)>>)
           ELSE IF s.mode[n] = "up"
                THEN Finish(Opening(n) \o <<Req(n, api), Coord(n, 0), Ret(TRUE, 1, 0)>>)
                ELSE IF Bug = "firsterr" THEN Finish(Opening(n) \o <<Req(n, api), Coord(n, 15), Ret(FALSE, 0, 0)>>)
                ELSE Emit(Opening(n) \o <<Req(n, api), Coord(n, 15)>>) /\ left' = left \ {n} /\ UNCHANGED call
  /\ UNCHANGED <<up, cctl, info, nc, ns>>
GiveUp == /\ call.op \in {"meta", "coord", "any"} /\ (left = {} \/ (Bug = "oneonly" /\ left # info))
          /\ Finish(<<Ret(FALSE, 0, 0)>>)
          /\ UNCHANGED <<up, cctl, info, conns, dead, nc, ns>>

Known(id) == id \in info \/ (Bug # "norefresh" /\ id \in s.reported /\ Source(s))
Refresh(yes) == IF yes THEN LET n == CHOOSE x \in s.known \cup SeqSet(s.boot) : x \in Told(s) IN <<Req(n, "Metadata"), Meta(n, 0)>> ELSE <<>>
Get ==
  /\ call.op \in {"get", "ctl"}
  /\ LET id == IF call.op = "get" THEN call.id ELSE IF Bug = "anyctl" THEN CHOOSE n \in info : TRUE ELSE cctl
         got == IF call.op = "ctl" THEN id ELSE 0
         fresh == id \notin info /\ Source(s) /\ Bug # "norefresh" IN
     /\ info' = IF fresh THEN s.reported ELSE info
     /\ cctl' = IF fresh THEN s.ctl ELSE cctl
     /\ IF id \in conns THEN Finish(<<Ret(TRUE, got, 0)>>) /\ UNCHANGED conns
        ELSE IF Known(id) /\ Opens(s.mode[id])
             THEN Finish(Refresh(fresh) \o <<Req(id, "ApiVersions"), Ret(TRUE, got, 0)>>) /\ conns' = conns \cup {id}
             ELSE Finish(Refresh(fresh) \o <<Ret(FALSE, 0, 0)>>) /\ UNCHANGED conns
  /\ UNCHANGED <<up, dead, nc, ns>>

Next == Shift \/ BootUp \/ Start("meta", 0) \/ Start("coord", 0) \/ Start("ctl", 0) \/ Start("any", 0) \/ (\E id \in Nodes : Start("get", id))
        \/ (\E n \in left : Ask(n)) \/ GiveUp \/ Get \/ UNCHANGED vars

Refused == bad = <<>>
(* what the specification takes the client to know, it knows                  *)
Knows == up => s.known \subseteq info
(* a broker whose connection is not dead is not excused                       *)
Excused == dead \subseteq s.stale
=============================================================================
