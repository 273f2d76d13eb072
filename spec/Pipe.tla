-------------------------------- MODULE Pipe --------------------------------
(* The commands that move records between a topic and a terminal: what        *)
(* simple-producer and console-producer append of their standard input, what  *)
(* simple-consumer, console-consumer and group-consumer print of a topic.     *)
(*                                                                            *)
(*   SMay(s, e)   the specification allows event e in state s                 *)
(*   SDo(s, e)    the state after e                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
Put(f, k, v) == (k :> v) @@ f

Reading == {"simple-producer", "console-producer"}     \* standard input
NoRun == [cmd |-> "none"]
SStart(cfg) == [ log |-> [p \in {} |-> 0],             \* partition -> its visible records, in order
                 store |-> [p \in {} |-> 0],           \* partition -> offset committed for the group
                 run |-> NoRun, pos |-> [p \in {} |-> 0], made |-> [p \in {} |-> 0],
                 out |-> 0, outp |-> {}, refused |-> FALSE, stopped |-> FALSE, left |-> FALSE ]

(* -------------------------------------------------------------- producing   *)
Count(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
RECURSIVE Within(_, _)          \* q is a subsequence of r
Within(q, r) == IF q = <<>> THEN TRUE ELSE IF r = <<>> THEN FALSE
                ELSE IF Head(q) = Head(r) THEN Within(Tail(q), Tail(r)) ELSE Within(q, Tail(r))
MadeOf(s, p) == IF p \in DOMAIN s.made THEN s.made[p] ELSE <<>>
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + Sum(f, D \ {x})
Total(s) == Sum([p \in DOMAIN s.made |-> Len(s.made[p])], DOMAIN s.made)
Times(s, v) == Sum([p \in DOMAIN s.made |-> Count(s.made[p], v)], DOMAIN s.made)
MadeOK(s, e) ==
  LET r == s.run IN
  /\ r.cmd \in Reading /\ ~r.bad
  /\ e.key = "null"
  /\ r.cmd = "simple-producer" => e.p = r.p
  /\ Times(s, e.v) < Count(r.lines, e.v)
  /\ Within(Append(MadeOf(s, e.p), e.v), r.lines)
(* lines before the first that is too long to be read                         *)
Before(q) == IF \E i \in 1..Len(q) : q[i] = "$huge" THEN (CHOOSE i \in 1..Len(q) : q[i] = "$huge" /\ \A j \in 1..(i - 1) : q[j] # "$huge") - 1 ELSE Len(q)
ReadExit(s, ok) ==
  LET r == s.run IN
  IF ok THEN ~r.bad /\ ~s.refused /\ Total(s) = Len(r.lines)
  ELSE \/ r.bad \/ s.refused
       \/ Before(r.lines) < Len(r.lines) /\ Total(s) >= Before(r.lines)

(* -------------------------------------------------------------- consuming   *)
Assigned(r) == IF r.cmd = "simple-consumer" THEN {r.p} ELSE {r.ps[i] : i \in 1..Len(r.ps)}
LogOf(s, p) == IF p \in DOMAIN s.log THEN s.log[p] ELSE <<>>
(* what is to be printed next of partition p, or <<>>                         *)
Next1(s, p) == LET q == LogOf(s, p)  I == {i \in 1..Len(q) : q[i].o >= s.pos[p]} IN
               IF p \notin DOMAIN s.pos \/ I = {} THEN <<>> ELSE <<q[CHOOSE i \in I : \A j \in I : i <= j]>>
AtStop(s) == s.run.stop > 0 /\ \E p \in DOMAIN s.pos : Next1(s, p) # <<>> /\ Next1(s, p)[1].o >= s.run.stop
AtMax(s) == s.run.max >= 0 /\ s.out >= s.run.max
OutOK(s, e) ==
  LET r == s.run IN
  /\ r.cmd \notin Reading /\ r.cmd # "none" /\ ~r.bad
  /\ e.p \in Assigned(r) \cap DOMAIN s.pos
  /\ ~AtMax(s) /\ ~AtStop(s)
  /\ Next1(s, e.p) # <<>>
  /\ LET n == Next1(s, e.p)[1] IN e.v = n.v /\ e.o \in {n.o, -9} /\ e.k \in {n.k, "-"}
(* a group goes on where its last member ended: nothing lost, nothing twice   *)
CommitsOK(s) == s.run.cmd = "group-consumer" =>
                  /\ \A p \in DOMAIN s.store : p \in DOMAIN s.pos => s.store[p] <= s.pos[p]
                  /\ \A p \in s.outp : p \in DOMAIN s.store /\ s.store[p] = s.pos[p]
                  /\ s.left
ShowExit(s, ok) == IF ok THEN ~s.run.bad /\ (AtMax(s) \/ AtStop(s) \/ s.stopped) /\ CommitsOK(s) ELSE s.run.bad
(* ended from outside, because nothing more came                              *)
Quiet(s) == /\ ~s.run.bad /\ ~AtMax(s) /\ ~AtStop(s)
            /\ \A p \in Assigned(s.run) : p \in DOMAIN s.pos /\ Next1(s, p) = <<>>

SMay(s, e) ==
  CASE e.ev = "Made" -> MadeOK(s, e)
    [] e.ev = "Out" -> OutOK(s, e)
    [] e.ev = "Stray" -> s.run.bad
    [] e.ev = "Req" -> s.run.client # "" => e.client = s.run.client
    [] e.ev = "Commit" -> s.run.cmd = "group-consumer" /\ e.g = s.run.group
    [] e.ev = "Exit" -> IF s.run.cmd \in Reading THEN ReadExit(s, e.ok) ELSE ShowExit(s, e.ok)
    [] e.ev = "Quiet" -> Quiet(s)
    [] e.ev = "Hang" -> FALSE
    [] e.ev = "Crash" -> FALSE
    [] OTHER -> TRUE

(* the first position told counts: later ones are answers to other questions  *)
Place(s, p, o) == IF p \in DOMAIN s.pos \/ s.run.cmd \in Reading \cup {"none"} THEN s ELSE [s EXCEPT !.pos = Put(@, p, o)]
SDo(s, e) ==
  CASE e.ev = "Append" -> [s EXCEPT !.log = Put(@, e.p, Append(LogOf(s, e.p), [o |-> e.o, v |-> e.v, k |-> e.k]))]
    [] e.ev = "Run" -> [s EXCEPT !.run = e, !.made = [p \in {} |-> 0], !.out = 0, !.outp = {}, !.left = FALSE, !.refused = FALSE, !.stopped = FALSE,
                                 !.pos = IF e.cmd = "simple-consumer" /\ e.from >= 0 THEN e.p :> e.from ELSE [p \in {} |-> 0]]
    [] e.ev = "Told" -> IF s.run.cmd # "none" /\ "from" \in DOMAIN s.run /\ e.ts = s.run.from THEN Place(s, e.p, e.off) ELSE s
    [] e.ev = "Resumed" -> IF e.off >= 0 THEN Place(s, e.p, e.off) ELSE s
    [] e.ev = "Made" -> [s EXCEPT !.made = Put(@, e.p, Append(MadeOf(s, e.p), e.v))]
    [] e.ev = "Refuse" -> [s EXCEPT !.refused = TRUE]
    [] e.ev = "Out" -> [s EXCEPT !.out = @ + 1, !.outp = @ \cup {e.p}, !.pos[e.p] = Next1(s, e.p)[1].o + 1]
    [] e.ev = "Commit" -> [s EXCEPT !.store = Put(@, e.p, e.off)]
    [] e.ev = "Leave" -> [s EXCEPT !.left = TRUE]
    [] e.ev = "Int" -> [s EXCEPT !.stopped = TRUE]
    [] e.ev = "Exit" -> [s EXCEPT !.run = NoRun]
    [] OTHER -> s
=============================================================================
