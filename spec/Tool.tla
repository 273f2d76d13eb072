-------------------------------- MODULE Tool --------------------------------
(* The command-line tools that report and set offsets (T01).                  *)
(*                                                                            *)
(*   OMay(s, e)   the specification allows event e in state s                 *)
(*   ODo(s, e)    the state after e                                           *)
(*                                                                            *)
(* The cluster changes only between two runs of the tool.  Events:            *)
(*   Part, Coord, Had, Owns, Group  the cluster: a partition and its leader, a *)
(*               group's coordinator, a committed offset, which member of a   *)
(*               group has a partition, a group that is listed                *)
(*   Run, Exit   a command and its exit status                                *)
(*   Ask, Told   a broker is asked for a partition's offset, and its answer   *)
(*   Fetched     a coordinator's answer to a committed-offset request         *)
(*   Put, PutAns a commit, and its answer                                     *)
(*   Line        a line the tool printed, read back                           *)
(*   Fault       something failed: a connection, a broker, an answer          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
G(p, c) == (Prop = p \/ Prop = "ALL") => c

SeqSet(q) == {q[i] : i \in 1..Len(q)}
Put1(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]

NoRun == [cmd |-> "none", t |-> "", groups |-> {}, ts |-> 0, ps |-> {}, total |-> FALSE, all |-> TRUE]
OStart(cfg) ==
  [ lead |-> Empty,          \* <<topic, partition>> -> leader
    coord |-> Empty,         \* group -> coordinator
    owns |-> Empty,          \* <<group, topic, partition>> -> member
    run |-> NoRun, told |-> Empty, got |-> Empty, put |-> Empty, ok |-> FALSE,
    seen |-> {}, sums |-> {}, fault |-> FALSE ]

PartsOf(s, t) == {k[2] : k \in {x \in DOMAIN s.lead : x[1] = t}}
Wanted(s) == IF s.run.all THEN PartsOf(s, s.run.t) ELSE PartsOf(s, s.run.t) \cap s.run.ps
TopicsOf(s, g) == IF s.run.t # "" THEN {s.run.t} ELSE {k[2] : k \in {x \in DOMAIN s.owns : x[1] = g}}
Owner(s, g, t, p) == IF <<g, t, p>> \in DOMAIN s.owns THEN s.owns[<<g, t, p>>] ELSE ""

(* the log end and the committed offset the tool was told, and their distance *)
End(s, t, p) == s.told[<<t, p>>].off
Com(s, g, t, p) == s.got[<<g, t, p>>]
Lag(s, g, t, p) == IF End(s, t, p) = -1 THEN 0 ELSE End(s, t, p) - Com(s, g, t, p)
Known(s, g, t, p) == <<t, p>> \in DOMAIN s.told /\ s.told[<<t, p>>].code = 0 /\ <<g, t, p>> \in DOMAIN s.got

Sum(S, f(_)) == LET RECURSIVE of(_)
                    of(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE y \in R : TRUE IN f(x) + of(R \ {x})
                IN of(S)

LineOk(s, e) ==
  CASE e.kind = "offset" ->
         /\ s.run.cmd = "get-offsets" /\ e.t = s.run.t
         /\ <<e.t, e.p>> \in DOMAIN s.told
         /\ s.told[<<e.t, e.p>>].code = 0
         /\ e.off = s.told[<<e.t, e.p>>].off
         /\ e.ts = s.told[<<e.t, e.p>>].ts
         /\ <<"", e.t, e.p>> \notin s.seen
    [] e.kind = "pending" ->
         /\ s.run.cmd = "get-pending"
         /\ e.g \in s.run.groups /\ e.t \in TopicsOf(s, e.g)
         /\ Known(s, e.g, e.t, e.p)
         /\ e.end = End(s, e.t, e.p) /\ e.com = Com(s, e.g, e.t, e.p) /\ e.lag = Lag(s, e.g, e.t, e.p)
         /\ e.m = (IF s.run.t # "" THEN "" ELSE Owner(s, e.g, e.t, e.p))
         /\ <<e.g, e.t, e.p>> \notin s.seen
    [] e.kind = "total" ->
         /\ s.run.cmd = "get-pending" /\ s.run.total
         /\ \A p \in PartsOf(s, e.t) : <<e.g, e.t, p>> \in s.seen
         /\ e.end = Sum(PartsOf(s, e.t), LAMBDA p : End(s, e.t, p))
         /\ e.com = Sum(PartsOf(s, e.t), LAMBDA p : Com(s, e.g, e.t, p))
         /\ e.lag = Sum(PartsOf(s, e.t), LAMBDA p : Lag(s, e.g, e.t, p))
    [] OTHER -> FALSE

(* everything the command is for has been done                                *)
Complete(s) ==
  CASE s.run.cmd = "get-offsets" -> \A p \in PartsOf(s, s.run.t) : <<"", s.run.t, p>> \in s.seen
    [] s.run.cmd = "get-pending" ->
         \A g \in s.run.groups : \A t \in TopicsOf(s, g) :
            /\ \A p \in PartsOf(s, t) : <<g, t, p>> \in s.seen
            /\ s.run.total => <<g, t>> \in s.sums
    [] s.run.cmd = "reset-offset" -> s.ok /\ DOMAIN s.put = Wanted(s)
    [] OTHER -> TRUE

OMay(s, e) ==
  CASE e.ev = "Ask" ->
         G("T01", /\ <<e.t, e.p>> \in DOMAIN s.lead
                  /\ e.n = s.lead[<<e.t, e.p>>]
                  /\ e.ts = (IF s.run.cmd = "get-pending" THEN -1 ELSE s.run.ts))
    [] e.ev = "FetchAsk" -> G("T01", s.run.cmd = "get-pending" /\ e.g \in s.run.groups /\ e.n = s.coord[e.g])
    [] e.ev = "Put" ->
         G("T01", /\ s.run.cmd = "reset-offset"
                  /\ s.run.groups = {e.g} /\ e.n = s.coord[e.g]
                  /\ \A i \in 1..Len(e.rows) :
                       LET r == e.rows[i] IN
                       /\ r.t = s.run.t /\ r.p \in Wanted(s)
                       /\ <<r.t, r.p>> \in DOMAIN s.told /\ s.told[<<r.t, r.p>>].code = 0
                       /\ r.off = s.told[<<r.t, r.p>>].off
                  /\ {e.rows[i].p : i \in 1..Len(e.rows)} = Wanted(s)
                  /\ Cardinality({e.rows[i].p : i \in 1..Len(e.rows)}) = Len(e.rows))
    [] e.ev = "Line" -> G("T01", LineOk(s, e))
    [] e.ev = "Exit" ->
         G("T01", /\ s.run.cmd # "none"
                  /\ e.ok => (Complete(s) \/ (s.run.cmd = "get-pending" /\ s.fault))
                  /\ ~e.ok => s.fault)
    [] e.ev \in {"Hang", "Crash"} -> ~(Prop \in {"T01", "ALL"})
    [] OTHER -> TRUE

ODo(s, e) ==
  CASE e.ev = "Part" -> [s EXCEPT !.lead = Put1(@, <<e.t, e.p>>, e.n)]
    [] e.ev = "Coord" -> [s EXCEPT !.coord = Put1(@, e.g, e.n)]
    [] e.ev = "Owns" -> [s EXCEPT !.owns = Put1(@, <<e.g, e.t, e.p>>, e.m)]
    [] e.ev = "Run" -> [s EXCEPT !.run = [cmd |-> e.cmd, t |-> e.t, groups |-> SeqSet(e.groups), ts |-> e.ts,
                                          ps |-> SeqSet(e.ps), total |-> e.total, all |-> e.all],
                                 !.told = Empty, !.got = Empty, !.put = Empty, !.ok = FALSE, !.seen = {}, !.sums = {},
                                 !.fault = e.fault]
    [] e.ev = "Told" -> IF e.code # 0 /\ <<e.t, e.p>> \in DOMAIN s.told THEN s      \* the log does not change during a run
                        ELSE [s EXCEPT !.told = Put1(@, <<e.t, e.p>>, [off |-> e.off, ts |-> e.ts, code |-> e.code])]
    [] e.ev = "Fetched" -> IF e.code = 0 THEN [s EXCEPT !.got = Put1(@, <<e.g, e.t, e.p>>, e.off)] ELSE s
    [] e.ev = "Put" -> [s EXCEPT !.put = [p \in {e.rows[i].p : i \in 1..Len(e.rows)} |-> 0]]
    [] e.ev = "PutAns" -> [s EXCEPT !.ok = e.code = 0]
    [] e.ev = "Line" -> CASE e.kind = "offset" -> [s EXCEPT !.seen = @ \cup {<<"", e.t, e.p>>}]
                          [] e.kind = "pending" -> [s EXCEPT !.seen = @ \cup {<<e.g, e.t, e.p>>}]
                          [] e.kind = "total" -> [s EXCEPT !.sums = @ \cup {<<e.g, e.t>>}]
                          [] OTHER -> s
    [] e.ev = "Fault" -> [s EXCEPT !.fault = TRUE]
    [] e.ev = "Exit" -> [s EXCEPT !.run = NoRun]
    [] OTHER -> s
=============================================================================
