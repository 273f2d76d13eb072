------------------------------- MODULE MCConn -------------------------------
(* The design of healer's broker handle: callers take a lock, open and        *)
(* authenticate a connection when there is none, write one request, read one  *)
(* response, and close the connection whenever that exchange did not complete.*)
(* Every observable step is submitted to the specification Conn; bad holds    *)
(* the first one it refuses.                                                  *)
EXTENDS Conn

CONSTANTS NCallers,      \* goroutines sharing the handle
          NOps,          \* calls each of them makes
          MaxFaults, MaxConn, Sasl,
          CloseOnFail    \* TRUE is the design; FALSE shows the invariants bite

VARIABLES s, bad, pc, lock, cur, open, srv, wire, stalled, nf

vars == <<s, bad, pc, lock, cur, open, srv, wire, stalled, nf>>

Calls == { 100 * i + j : i \in 1..NCallers, j \in 1..NOps }
Prev(k) == IF k % 100 = 1 THEN 0 ELSE k - 1
Stages == IF Sasl THEN <<"ApiVersions", "SaslHandshake", "SaslAuthenticate">>
          ELSE <<"ApiVersions">>

Emit(e) == IF bad = <<>> /\ CMay(s, e)
           THEN s' = CDo(s, e) /\ UNCHANGED bad
           ELSE bad' = (IF bad = <<>> THEN <<e>> ELSE bad) /\ UNCHANGED s

Init == /\ s = CStart([sasl |-> Sasl])
        /\ bad = <<>>
        /\ pc = [k \in Calls |-> [at |-> "idle", i |-> 0]]
        /\ lock = 0 /\ cur = 0
        /\ open = {} /\ srv = <<>> /\ wire = <<>>
        /\ stalled = {} /\ nf = 0

At(k, a) == pc[k].at = a
Go(k, a, i) == pc' = [pc EXCEPT ![k] = [at |-> a, i |-> i]]
Waiting(k) == pc[k].at \in {"hsw", "sent"}

Begin(k) ==
  /\ At(k, "idle")
  /\ IF Prev(k) = 0 THEN TRUE ELSE At(Prev(k), "done")
  /\ Go(k, "wait", 0)
  /\ Emit([ev |-> "Call", k |-> k])
  /\ UNCHANGED <<lock, cur, open, srv, wire, stalled, nf>>

Lock(k) ==
  /\ At(k, "wait") /\ lock = 0
  /\ lock' = k
  /\ Go(k, IF cur = 0 THEN "dial" ELSE "send", 0)
  /\ UNCHANGED <<s, bad, cur, open, srv, wire, stalled, nf>>

Dial(k) ==
  /\ At(k, "dial") /\ Len(srv) < MaxConn
  /\ cur' = Len(srv) + 1
  /\ open' = open \cup {cur'}
  /\ srv' = Append(srv, <<>>) /\ wire' = Append(wire, <<>>)
  /\ Emit([ev |-> "Open", c |-> cur'])
  /\ Go(k, "hs", 1)
  /\ UNCHANGED <<lock, stalled, nf>>

Write(k, api, tag, nextAt, i) ==
  /\ cur \in open
  /\ srv' = [srv EXCEPT ![cur] = Append(@, [api |-> api, k |-> tag])]
  /\ Emit([ev |-> "Req", c |-> cur, api |-> api, k |-> tag, cred |-> TRUE, dec |-> TRUE])
  /\ Go(k, nextAt, i)
  /\ UNCHANGED <<lock, cur, open, wire, stalled, nf>>

SendHs(k) == At(k, "hs") /\ Write(k, Stages[pc[k].i], 0, "hsw", pc[k].i)
Send(k)   == At(k, "send") /\ Write(k, "FindCoordinator", k, "sent", 0)

Fail(k) ==
  /\ Emit([ev |-> "RetErr", k |-> k])
  /\ lock' = 0
  /\ cur' = IF CloseOnFail THEN 0 ELSE cur
  /\ open' = IF CloseOnFail THEN open \ {cur} ELSE open
  /\ Go(k, "done", 0)
  /\ UNCHANGED <<srv, wire, stalled, nf>>

(* Writing to, or reading from, a connection the broker has closed.           *)
Broken(k) ==
  /\ pc[k].at \in {"hs", "send"} \/ (Waiting(k) /\ wire[cur] = <<>>)
  /\ cur \notin open
  /\ Fail(k)

Timeout(k) ==
  /\ Waiting(k) /\ cur \in stalled /\ wire[cur] = <<>>
  /\ Fail(k)

Recv(k) ==
  /\ Waiting(k) /\ wire[cur] # <<>>
  /\ LET r == Head(wire[cur]) IN
     IF r.code # 0 THEN Fail(k)
     ELSE
       /\ wire' = [wire EXCEPT ![cur] = Tail(@)]
       /\ IF At(k, "hsw")
          THEN /\ IF pc[k].i = Len(Stages) THEN Go(k, "send", 0)
                  ELSE Go(k, "hs", pc[k].i + 1)
               /\ UNCHANGED <<s, bad, lock>>
          ELSE /\ Emit([ev |-> "RetOk", k |-> k, v |-> r.k, new |-> FALSE])
               /\ lock' = 0
               /\ Go(k, "done", 0)
       /\ UNCHANGED <<cur, open, srv, stalled, nf>>

(* The broker answers in order.  A stalled connection answers only once the   *)
(* caller has given up: a late response.                                      *)
Answer(c) ==
  /\ srv[c] # <<>> /\ c \in open
  /\ c \in stalled => IF lock = 0 THEN TRUE ELSE cur # c \/ ~Waiting(lock)
  /\ LET r == Head(srv[c]) IN
     /\ wire' = [wire EXCEPT ![c] = Append(@, [k |-> r.k, code |-> 0])]
     /\ Emit([ev |-> "Resp", c |-> c, api |-> r.api, code |-> 0, k |-> r.k, full |-> TRUE])
  /\ srv' = [srv EXCEPT ![c] = Tail(@)]
  /\ stalled' = stalled \ {c}
  /\ UNCHANGED <<pc, lock, cur, open, nf>>

(* The broker drops a connection, with requests in hand or idle.              *)
Drop(c) ==
  /\ c \in open /\ nf < MaxFaults
  /\ nf' = nf + 1
  /\ open' = open \ {c}
  /\ Emit([ev |-> "Fault", c |-> c, kind |-> "drop"])
  /\ srv' = [srv EXCEPT ![c] = <<>>]
  /\ \E w \in {wire[c], <<>>} : wire' = [wire EXCEPT ![c] = w]
  /\ UNCHANGED <<pc, lock, cur, stalled>>

Stall(c) ==
  /\ c \in open /\ c \notin stalled /\ srv[c] # <<>> /\ nf < MaxFaults
  /\ nf' = nf + 1
  /\ stalled' = stalled \cup {c}
  /\ Emit([ev |-> "Fault", c |-> c, kind |-> "late"])
  /\ UNCHANGED <<pc, lock, cur, open, srv, wire>>

(* The broker refuses the handshake or the credentials.                       *)
Refuse(c) ==
  /\ c \in open /\ srv[c] # <<>> /\ nf < MaxFaults
  /\ Head(srv[c]).api \in {"SaslHandshake", "SaslAuthenticate"}
  /\ nf' = nf + 1
  /\ LET r == Head(srv[c]) IN
       s' = CDo(CDo(s, [ev |-> "Fault", c |-> c, kind |-> "err"]),
                [ev |-> "Resp", c |-> c, api |-> r.api, code |-> 58, k |-> 0, full |-> TRUE])
  /\ wire' = [wire EXCEPT ![c] = Append(@, [k |-> 0, code |-> 58])]
  /\ srv' = [srv EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<bad, pc, lock, cur, open, stalled>>

Done == \A k \in Calls : At(k, "done")

Next ==
  \/ \E k \in Calls : Begin(k) \/ Lock(k) \/ Dial(k) \/ SendHs(k) \/ Send(k)
                      \/ Broken(k) \/ Timeout(k) \/ Recv(k)
  \/ \E c \in 1..Len(srv) : Answer(c) \/ Drop(c) \/ Stall(c) \/ Refuse(c)
  \/ Done /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

(* The design never does what the specification refuses ...                   *)
Refused == bad = <<>>
(* ... and two of the properties in their own words.                          *)
HealsB04 == s.fails <= s.faults
UnauthenticatedB02 ==
  \A k \in DOMAIN s.asked : s.phase[s.asked[k]] = "ready"
=============================================================================
