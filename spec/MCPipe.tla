------------------------------- MODULE MCPipe -------------------------------
(* The design of the producing and consuming commands.  Part "in": lines are  *)
(* read one by one into a batch that is sent when full, by a timer, and at    *)
(* the end of the input; the broker refuses some request.  Part "out": a      *)
(* consumer hands records over a channel of some capacity to the command,     *)
(* which prints them until it has enough, is interrupted or nothing more      *)
(* comes; what has been taken from the channel may be committed, and the next *)
(* run begins there; the log grows meanwhile.  Every observable step is       *)
(* submitted to the specification Pipe.                                       *)
EXTENDS Pipe

CONSTANTS Part, Lines, Batch, MaxLog, MaxRuns, Cap, Bug

VARIABLES s, bad,
          pc,              \* "idle", "on", "ending"
          rd, buf, cur, failed, cmd,    \* in: lines read, batch, partition in use
          pos, chan, out, max, stop, com, nlog, runs

vars == <<s, bad, pc, rd, buf, cur, failed, cmd, pos, chan, out, max, stop, com, nlog, runs>>

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF SMay(r.s, Head(evs)) THEN [s |-> SDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

RunEv(c, p, ps, f, m, st, ls) == [ev |-> "Run", cmd |-> c, p |-> p, ps |-> ps, from |-> f, max |-> m, stop |-> st, bad |-> FALSE, lines |-> ls, client |-> "", group |-> "g1"]

Init == /\ s = SStart([x |-> 0]) /\ bad = <<>> /\ pc = "idle"
        /\ rd = 0 /\ buf = <<>> /\ cur = 0 /\ failed = FALSE /\ cmd = "none"
        /\ pos = 0 /\ chan = <<>> /\ out = 0 /\ max = -1 /\ stop = 0 /\ com = -1 /\ nlog = 0 /\ runs = 0

InU == UNCHANGED <<pos, chan, out, max, stop, com, nlog>>
OutU == UNCHANGED <<rd, buf, cur, failed>>

(* ------------------------------------------------------------------- input  *)
Tok(i) == <<"a", "b", "a", "c", "$empty">>[i]
Input == [i \in 1..Lines |-> Tok(i)]
StartIn == /\ Part = "in" /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
           /\ \E c \in Reading : cmd' = c /\ Emit(<<RunEv(c, 0, <<0, 1>>, 0, -1, 0, Input)>>)
           /\ pc' = "on" /\ rd' = 0 /\ buf' = <<>> /\ failed' = FALSE /\ cur' = 0 /\ InU
MadeEvs(b) == [i \in 1..Len(b) |-> [ev |-> "Made", p |-> cur, key |-> "null", v |-> b[i]]]
(* one request: accepted or refused                                           *)
Flush(b, told) ==          \* told: its error comes back to the command
  IF b = <<>> THEN UNCHANGED <<s, bad, failed>> /\ buf' = <<>>
  ELSE \/ Emit(MadeEvs(b)) /\ UNCHANGED failed /\ buf' = IF Bug = "dup" THEN b ELSE <<>>
       \/ Emit(<<[ev |-> "Refuse"]>>) /\ failed' = (failed \/ told) /\ buf' = <<>>
ReadLine ==
  /\ pc = "on" /\ rd < Lines /\ ~failed /\ Part = "in"
  /\ rd' = rd + 1
  /\ LET l == Input[rd + 1]
         b == IF Bug = "skipempty" /\ l = "$empty" THEN buf ELSE IF Bug = "alias" /\ buf # <<>> THEN [i \in 1..(Len(buf) + 1) |-> l] ELSE Append(buf, l) IN
     IF Len(b) >= Batch THEN Flush(b, Bug # "ignore") ELSE buf' = b /\ UNCHANGED <<s, bad, failed>>
  /\ UNCHANGED <<pc, cur, cmd, runs>> /\ InU
(* console-producer changes partitions when it reads the metadata anew        *)
Switch == /\ pc = "on" /\ Part = "in" /\ cmd = "console-producer" /\ cur = 0
          /\ IF Bug = "dropswitch" THEN buf' = <<>> /\ UNCHANGED <<s, bad, failed>> ELSE Flush(buf, TRUE)
          /\ cur' = 1 /\ UNCHANGED <<pc, rd, cmd, runs>> /\ InU
EndIn == /\ pc = "on" /\ Part = "in" /\ (rd = Lines \/ failed) /\ pc' = "ending"
         /\ IF Bug = "noflush" \/ failed THEN UNCHANGED <<s, bad, failed>> /\ buf' = <<>> ELSE Flush(buf, Bug # "quietend")
         /\ UNCHANGED <<rd, cur, cmd, runs>> /\ InU
ExitIn == /\ pc = "ending" /\ Part = "in" /\ pc' = "idle" /\ Emit(<<[ev |-> "Exit", ok |-> ~failed]>>)
          /\ UNCHANGED <<rd, buf, cur, failed, cmd, runs>> /\ InU

(* ------------------------------------------------------------------ output  *)
RecOf(o) == [o |-> o, v |-> <<"x", "null", "y", "z", "empty", "w">>[(o % 6) + 1], k |-> "null"]
Grow == /\ Part = "out" /\ nlog < MaxLog /\ nlog' = nlog + 1
        /\ Emit(<<[ev |-> "Append", p |-> 0, o |-> nlog, v |-> RecOf(nlog).v, k |-> "null"]>>)
        /\ OutU /\ UNCHANGED <<pc, cmd, pos, chan, out, max, stop, com, runs>>
StartOut ==
  /\ Part = "out" /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1 /\ pc' = "on"
  /\ \E c \in {"simple-consumer", "group-consumer"}, m \in {-1, 1, 2}, st \in {0, 2}, f \in {-1, -2, 1} :
       /\ (c = "group-consumer" => st = 0 /\ f < 0) /\ (f = 1 => nlog >= 1)
       /\ LET grp == c = "group-consumer"
              at == IF grp /\ com >= 0 THEN com ELSE IF f = -1 THEN nlog ELSE IF f = -2 THEN 0 ELSE f IN
          /\ Emit(<<RunEv(c, 0, <<0>>, f, m, st, <<>>)>> \o (IF grp THEN <<[ev |-> "Resumed", p |-> 0, off |-> com]>> ELSE <<>>)
                  \o (IF f >= 0 \/ (grp /\ com >= 0) THEN <<>> ELSE <<[ev |-> "Told", p |-> 0, ts |-> f, off |-> at]>>))
          /\ pos' = (IF Bug = "fromstart" THEN 0 ELSE at) /\ cmd' = c /\ max' = m /\ stop' = st
  /\ chan' = <<>> /\ out' = 0 /\ OutU /\ UNCHANGED <<com, nlog>>
(* the consumer puts the next record into the channel; a capacity of 0 means  *)
(* that it hands it over                                                      *)
Fetch == /\ Part = "out" /\ pc = "on" /\ pos < nlog /\ Len(chan) < (IF Cap = 0 THEN 1 ELSE Cap)
         /\ (Cap = 0 => (max < 0 \/ out < max))
         /\ chan' = Append(chan, RecOf(pos)) /\ pos' = pos + 1
         /\ OutU /\ UNCHANGED <<s, bad, pc, cmd, out, max, stop, com, nlog, runs>>
(* what has left the consumer counts as consumed; unbuffered, the command has *)
(* it in hand and prints it before anything else it does                      *)
Commit == /\ Part = "out" /\ pc # "idle" /\ cmd = "group-consumer" /\ com # pos
          /\ com' = pos /\ Emit(<<[ev |-> "Commit", g |-> "g1", p |-> 0, off |-> pos]>>)
          /\ OutU /\ UNCHANGED <<pc, cmd, pos, chan, out, max, stop, nlog, runs>>
Enough == max >= 0 /\ (IF Bug = "onemore" THEN out > max ELSE out >= max)
Print1 ==
  /\ Part = "out" /\ pc = "on" /\ ~Enough /\ chan # <<>>
  /\ LET r == Head(chan) IN
     IF stop > 0 /\ (IF Bug = "stopat" THEN r.o > stop ELSE r.o >= stop) THEN pc' = "ending" /\ UNCHANGED <<s, bad, out>>
     ELSE /\ pc' = pc
          /\ IF Bug = "skipnull" /\ r.v = "null" THEN UNCHANGED <<s, bad>> /\ out' = out + 1
             ELSE Emit(<<[ev |-> "Out", p |-> 0, o |-> r.o, v |-> r.v, k |-> "-"]>>) /\ out' = out + 1
  /\ chan' = Tail(chan) /\ OutU /\ UNCHANGED <<cmd, pos, max, stop, com, nlog, runs>>
Done == /\ Part = "out" /\ pc = "on" /\ Enough /\ pc' = "ending"
        /\ OutU /\ UNCHANGED <<s, bad, cmd, pos, chan, out, max, stop, com, nlog, runs>>
Interrupt == /\ Part = "out" /\ pc = "on" /\ cmd = "group-consumer" /\ (Cap = 0 => chan = <<>>) /\ pc' = "ending"
             /\ Emit(<<[ev |-> "Int"]>>)
             /\ OutU /\ UNCHANGED <<cmd, pos, chan, out, max, stop, com, nlog, runs>>
(* ended from outside after nothing came for long                             *)
Silent == /\ Part = "out" /\ pc = "on" /\ cmd = "simple-consumer" /\ ~Enough /\ chan = <<>> /\ pos = nlog /\ pc' = "idle"
          /\ Emit(<<[ev |-> "Quiet"]>>)
          /\ OutU /\ UNCHANGED <<cmd, pos, chan, out, max, stop, com, nlog, runs>>
(* closing: a last commit, then the group is left                             *)
Last == IF cmd # "group-consumer" \/ Bug = "noclose" THEN <<>>
        ELSE (IF com # pos THEN <<[ev |-> "Commit", g |-> "g1", p |-> 0, off |-> pos]>> ELSE <<>>) \o <<[ev |-> "Leave"]>>
ExitOut == /\ Part = "out" /\ pc = "ending" /\ pc' = "idle" /\ Emit(Last \o <<[ev |-> "Exit", ok |-> TRUE]>>)
           /\ com' = IF Len(Last) = 2 THEN pos ELSE com
           /\ OutU /\ UNCHANGED <<cmd, pos, chan, out, max, stop, nlog, runs>>

Next == StartIn \/ ReadLine \/ Switch \/ EndIn \/ ExitIn
        \/ Grow \/ StartOut \/ Fetch \/ Commit \/ Print1 \/ Done \/ Interrupt \/ Silent \/ ExitOut \/ UNCHANGED vars

Refused == bad = <<>>
(* what is committed when nothing runs has been printed                       *)
Safe == (Part = "out" /\ pc = "idle" /\ com >= 0 /\ 0 \in DOMAIN s.pos /\ cmd = "group-consumer") => com <= s.pos[0]
=============================================================================
