------------------------------- MODULE Lookup -------------------------------
(* Bootstrapping and lookups in a cluster of which parts are down or failing. *)
(*                                                                            *)
(*   LMay(s, e)   the specification allows event e in state s                 *)
(*   LDo(s, e)    the state after e                                           *)
(*                                                                            *)
(* Modes of a broker: up; down (refuses connections); silent (accepts, never  *)
(* answers); closing (accepts, closes on the first request); mute and drop    *)
(* (negotiate, but leave lookups unanswered, or close on them); empty (answer *)
(* a metadata request without any broker and a coordinator request with an    *)
(* error); nocoord (like up, but answer coordinator requests with an error).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
G(p, c) == (Prop = p \/ Prop = "ALL") => c

SeqSet(q) == {q[i] : i \in 1..Len(q)}
Put(f, k, v) == (k :> v) @@ f

LStart(cfg) ==
  [ mode |-> [n \in SeqSet(cfg.nodes) |-> "up"],
    reported |-> SeqSet(cfg.listed),     \* what the cluster calls its brokers
    boot |-> <<>>, booting |-> FALSE, told |-> {},
    known |-> {},                        \* brokers the client has been told of
    stale |-> {},                        \* brokers whose connections were cut since they were last used
    ctl |-> cfg.ctl,                     \* the controller
    ctls |-> {},                         \* controllers the client has been told of
    calls |-> [c \in {} |-> 0] ]

Tells(m) == m \in {"up", "nocoord"}                  \* answers metadata requests
Finds(m) == m = "up"                                 \* answers coordinator requests
Opens(m) == m \in {"up", "mute", "drop", "empty", "nocoord"}

Told(s) == {n \in DOMAIN s.mode : Tells(s.mode[n])}
(* the brokers that are sure to answer a lookup that starts now               *)
Sure(s, op) == {n \in s.known \ s.stale : CASE op = "coord" -> Finds(s.mode[n]) [] op = "any" -> Opens(s.mode[n]) [] OTHER -> Tells(s.mode[n])}
Source(s) == \E n \in s.known \cup SeqSet(s.boot) : n \in Told(s)
Resolvable(s, id) == id \in s.known \/ (id \in s.reported /\ Source(s))

FirstAt(q, n) == CHOOSE i \in 1..Len(q) : q[i] = n /\ \A j \in 1..(i - 1) : q[j] # n
InOrder(s, n) == n \in SeqSet(s.boot) =>
                 \A j \in 1..(FirstAt(s.boot, n) - 1) : s.boot[j] \notin Told(s)

(* one call is under way, and no other has been since it began                *)
Alone(s) == Cardinality(DOMAIN s.calls) = 1 /\ \A c \in DOMAIN s.calls : s.calls[c].solo
Call(s) == s.calls[CHOOSE c \in DOMAIN s.calls : TRUE]

LMay(s, e) ==
  CASE e.ev = "Req" ->
         /\ s.booting => G("M01", e.n \in SeqSet(s.boot) /\ InOrder(s, e.n))
         /\ (Alone(s) /\ Call(s).op = "meta" /\ e.api = "Metadata") => G("M01", \A x \in Call(s).ans : x.code = 0)
         /\ (Alone(s) /\ Call(s).op = "use" /\ e.api = "ListGroups") => G("M01", e.n = Call(s).id)
    [] e.ev = "BootRet" ->
         G("M01", IF e.ok THEN s.told # {} ELSE \A i \in 1..Len(s.boot) : s.boot[i] \notin Told(s))
    [] e.ev = "Ret" ->
         LET c == s.calls[e.c] IN
         G("M01",
           CASE c.op = "meta" -> IF e.ok THEN \E x \in c.ans : x.api = "Metadata" /\ x.code = 0
                                 ELSE IF e.code # 0 THEN \E x \in c.ans : x.api = "Metadata" /\ x.code = e.code
                                 ELSE c.sure = {}
             [] c.op = "coord" -> IF e.ok THEN \E x \in c.ans : x.api = "FindCoordinator" /\ x.code = 0 /\ x.node = e.node
                                  ELSE c.sure \subseteq {x.n : x \in {y \in c.ans : y.api = "FindCoordinator" /\ y.code # 0}}
             [] c.op = "any" -> IF e.ok THEN \E x \in c.ans : x.api = "ListGroups" ELSE c.sure = {}
             [] c.op = "get" -> e.ok \/ ~c.may
             [] c.op = "ctl" -> IF e.ok THEN e.node \in s.ctls ELSE ~c.may
             [] OTHER -> TRUE)
    [] e.ev = "Hang" -> ~(Prop \in {"M01", "ALL"})
    [] e.ev = "Crash" -> ~(Prop \in {"M01", "ALL"})
    [] OTHER -> TRUE

(* the brokers a call that wants a handle wants it for                        *)
Targets(s, e) == IF e.op = "get" THEN {e.id} ELSE IF e.op = "ctl" THEN s.ctls ELSE {}

LDo(s, e) ==
  CASE e.ev = "Mode" -> [s EXCEPT !.mode[e.n] = e.m, !.stale = IF e.cut THEN @ \cup {e.n} ELSE @]
    [] e.ev = "Cut" -> [s EXCEPT !.stale = @ \cup {e.n}]
    [] e.ev = "Ctl" -> [s EXCEPT !.ctl = e.n]
    [] e.ev = "Listed" -> [s EXCEPT !.reported = SeqSet(e.nodes)]
    [] e.ev = "Boot" -> [s EXCEPT !.boot = e.addrs, !.booting = TRUE, !.known = {}, !.told = {}, !.stale = {}, !.ctls = {}]
    [] e.ev = "BootRet" -> [s EXCEPT !.booting = FALSE, !.known = IF e.ok THEN s.told ELSE {}]
    [] e.ev = "Call" -> [s EXCEPT !.calls = Put([x \in DOMAIN @ |-> [@[x] EXCEPT !.solo = FALSE]], e.c,
                          [solo |-> DOMAIN s.calls = {}, op |-> e.op, id |-> e.id, ans |-> {}, sure |-> Sure(s, e.op),
                           may |-> \A id \in Targets(s, e) : id \in DOMAIN s.mode /\ Opens(s.mode[id]) /\ Resolvable(s, id),
                           new |-> Targets(s, e) # {} /\ Targets(s, e) \cap s.known = {}])]
    \* a refresh has a connection of its own: it says nothing about the kept one
    [] e.ev = "Req" -> IF e.api \in {"Metadata", "FindCoordinator", "ListGroups"} /\ \A c \in DOMAIN s.calls : s.calls[c].op \in {"meta", "coord", "any"}
                       THEN [s EXCEPT !.stale = @ \ {e.n}] ELSE s
    [] e.ev = "Ans" ->
         LET t == IF e.api = "Metadata" /\ e.brokers # <<>>
                  THEN [s EXCEPT !.told = IF s.booting THEN @ \cup SeqSet(e.brokers) ELSE @, !.ctls = @ \cup {e.ctl}] ELSE s IN
         [t EXCEPT !.calls = [c \in DOMAIN @ |-> [@[c] EXCEPT !.ans = @ \cup {[api |-> e.api, n |-> e.n, code |-> e.code, node |-> e.node]}]]]
    [] e.ev = "Ret" ->
         LET c == s.calls[e.c] IN
         [s EXCEPT !.calls = [x \in DOMAIN @ \ {e.c} |-> @[x]],
                   !.stale = IF ~e.ok /\ e.code = 0 /\ c.op \in {"meta", "coord", "any"} THEN {} ELSE @,
                   !.known = IF e.ok /\ c.new THEN s.reported ELSE @]
    [] OTHER -> s
=============================================================================
