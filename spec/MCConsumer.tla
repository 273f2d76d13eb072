---------------------------- MODULE MCConsumer ------------------------------
(* The design of healer's consumer of one partition: look up a start, fetch,  *)
(* hand the records over one by one and only then move the position, commit   *)
(* the position from a second thread of control, reset the position when it   *)
(* is out of range, and on stop end the loop before the last commit.  Every   *)
(* observable step is submitted to the specification Consumer.                *)
EXTENDS Consumer

CONSTANTS From0,         \* "earliest", "latest" or an offset
          Group,         \* a group is configured, with auto-commit
          Had,           \* what the group committed before, "none" for nothing
          Cap,           \* capacity of the application's channel
          MaxFaults, MaxTrims, MaxCommits,
          Bug            \* "none" is the design; the others show the specification bites

StartAt == CASE From0 = "earliest" -> -2 [] From0 = "latest" -> -1 [] From0 = "1" -> 1 [] From0 = "9" -> 9
Committed == CASE Had = "none" -> -1 [] Had = "1" -> 1 [] Had = "9" -> 9

VARIABLES s, bad, hi, lo, cpos, phase, q, nxt, ch, paused, com, ncom, stored, nf, nt, stop

vars == <<s, bad, hi, lo, cpos, phase, q, nxt, ch, paused, com, ncom, stored, nf, nt, stop>>

(* The log: two records, an offset that holds nothing visible, two records.   *)
Batches == << [recs |-> <<[off |-> 0, d |-> "a"], [off |-> 1, d |-> "b"]>>, hi |-> 2],
              [recs |-> <<>>, hi |-> 3],
              [recs |-> <<[off |-> 3, d |-> "c"], [off |-> 4, d |-> "e"]>>, hi |-> 5] >>
NB == Len(Batches)
RECURSIVE RecsUpTo(_)
RecsUpTo(k) == IF k = 0 THEN <<>> ELSE RecsUpTo(k - 1) \o Batches[k].recs
HiOf(k) == IF k = 0 THEN 0 ELSE Batches[k].hi

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF KMay(r.s, Head(evs)) THEN [s |-> KDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

P == "p0"
Init == /\ hi = 1 /\ lo = 0 /\ nf = 0 /\ nt = 0 /\ stop = "no" /\ paused = FALSE
        /\ s = KDo(KStart([start |-> StartAt, group |-> Group, auto |-> Group, cap |-> Cap, parts |-> <<P>>]),
                   [ev |-> "Store", p |-> P, recs |-> Batches[1].recs, hi |-> Batches[1].hi])
        /\ bad = <<>> /\ cpos = StartAt /\ phase = "start" /\ q = <<>> /\ nxt = -1 /\ ch = <<>>
        /\ com = -1 /\ ncom = 0 /\ stored = Committed

(* --------------------------------------------------------- environment    *)
Grow == /\ hi < NB /\ hi' = hi + 1
        /\ Emit(<<[ev |-> "Store", p |-> P, recs |-> Batches[hi'].recs, hi |-> Batches[hi'].hi]>>)
        /\ UNCHANGED <<lo, cpos, phase, q, nxt, ch, paused, com, ncom, stored, nf, nt, stop>>

Trim == /\ nt < MaxTrims /\ lo < HiOf(hi) /\ nt' = nt + 1
        /\ \E x \in (lo + 1)..HiOf(hi) : lo' = x
        /\ Emit(<<[ev |-> "Trim", p |-> P, lo |-> lo']>>)
        /\ UNCHANGED <<hi, cpos, phase, q, nxt, ch, paused, com, ncom, stored, nf, stop>>

(* ----------------------------------------------------------- consumer     *)
Fails == nf < MaxFaults /\ nf' = nf + 1

AskCommitted ==
  /\ phase = "start"
  /\ IF StartAt >= 0 \/ ~Group
     THEN /\ phase' = IF StartAt >= 0 THEN "idle" ELSE "list"
          /\ UNCHANGED <<s, bad, cpos, nf>>
     ELSE \/ /\ Emit(<<[ev |-> "OffReq", p |-> P, mine |-> TRUE],
                       [ev |-> "OffResp", p |-> P, code |-> 0, off |-> stored, full |-> TRUE]>>)
             /\ IF stored >= 0 THEN cpos' = stored /\ phase' = "idle" ELSE phase' = "list" /\ UNCHANGED cpos
             /\ UNCHANGED nf
          \/ /\ Fails
             /\ Emit(<<[ev |-> "OffReq", p |-> P, mine |-> TRUE],
                       [ev |-> "OffResp", p |-> P, code |-> 16, off |-> -1, full |-> TRUE]>>)
             /\ phase' = IF Bug = "forgetcommit" THEN "list" ELSE phase
             /\ UNCHANGED cpos
  /\ UNCHANGED <<hi, lo, q, nxt, ch, paused, com, ncom, stored, nt, stop>>

EndOf(ts) == IF ts = -2 THEN lo ELSE HiOf(hi)
AskEnd ==       \* both at the start and when out of range
  /\ phase \in {"list", "oor"}
  /\ LET ts == IF phase = "list" THEN StartAt
               ELSE IF Bug = "wrongend" THEN -1 ELSE Wanted(s) IN
     \/ /\ Emit(<<[ev |-> "ListReq", p |-> P, ts |-> ts],
                  [ev |-> "ListResp", p |-> P, code |-> 0, off |-> EndOf(ts), full |-> TRUE]>>)
        /\ cpos' = EndOf(ts) /\ phase' = "idle" /\ UNCHANGED nf
     \/ /\ Fails
        /\ Emit(<<[ev |-> "ListReq", p |-> P, ts |-> ts],
                  [ev |-> "ListResp", p |-> P, code |-> 6, off |-> -1, full |-> TRUE]>>)
        /\ IF phase = "oor"
           THEN phase' = "idle" /\ cpos' = (IF Bug = "oorminus" THEN -1 ELSE cpos)
           ELSE UNCHANGED <<phase, cpos>>
  /\ UNCHANGED <<hi, lo, q, nxt, ch, paused, com, ncom, stored, nt, stop>>

Fetch ==
  /\ phase = "idle" /\ stop = "no"
  /\ Emit(<<[ev |-> "Fetch", p |-> P, off |-> cpos, maxb |-> 100]>>)
  /\ phase' = "wait"
  /\ UNCHANGED <<hi, lo, cpos, q, nxt, ch, paused, com, ncom, stored, nf, nt, stop>>

Visible == SelectSeq(RecsUpTo(hi), LAMBDA r : r.off >= cpos)
Answer ==
  /\ phase = "wait"
  /\ \/ /\ cpos < lo \/ cpos > HiOf(hi)
        /\ Emit(<<[ev |-> "FetchResp", p |-> P, code |-> 1, full |-> TRUE]>>)
        /\ phase' = "oor" /\ UNCHANGED <<q, nxt, nf>>
     \/ /\ ~(cpos < lo \/ cpos > HiOf(hi))
        /\ Emit(<<[ev |-> "FetchResp", p |-> P, code |-> 0, full |-> TRUE]>>)
        /\ phase' = "hand" /\ q' = Visible /\ nxt' = HiOf(hi) /\ UNCHANGED nf
     \/ /\ ~(cpos < lo \/ cpos > HiOf(hi)) /\ Fails        \* cut within the records
        /\ Emit(<<[ev |-> "FetchResp", p |-> P, code |-> 0, full |-> FALSE]>>)
        /\ \E k \in 0..Len(Visible) : q' = SubSeq(Visible, 1, k)
        /\ phase' = "hand" /\ nxt' = (IF Bug = "skipcut" THEN HiOf(hi) ELSE -1)
     \/ /\ Fails                                            \* leader moved, or no answer
        /\ Emit(<<[ev |-> "FetchResp", p |-> P, code |-> 6, full |-> TRUE]>>)
        /\ phase' = "idle" /\ UNCHANGED <<q, nxt>>
  /\ UNCHANGED <<hi, lo, cpos, ch, paused, com, ncom, stored, nt, stop>>

(* The channel, and one more in the application's hands while it runs.        *)
Room == Len(ch) < Cap + (IF paused THEN 0 ELSE 1)
Hand ==
  /\ phase = "hand"
  /\ IF q = <<>>
     THEN /\ phase' = "idle" /\ cpos' = (IF nxt > cpos THEN nxt ELSE cpos) /\ nxt' = -1 /\ UNCHANGED <<q, ch>>
     ELSE \/ /\ Room /\ ch' = Append(ch, Head(q)) /\ q' = Tail(q) /\ cpos' = Head(q).off + 1
             /\ UNCHANGED <<phase, nxt>>
          \/ /\ Bug = "early" /\ cpos < Head(q).off + 1 /\ cpos' = Head(q).off + 1
             /\ UNCHANGED <<phase, nxt, q, ch>>
          \/ /\ stop = "asked" /\ phase' = "idle" /\ q' = <<>> /\ nxt' = -1 /\ UNCHANGED <<ch, cpos>>
  /\ UNCHANGED <<s, bad, hi, lo, paused, com, ncom, stored, nf, nt, stop>>

(* --------------------------------------------------------- application    *)
Take ==
  /\ ch # <<>> /\ ~paused /\ stop # "quiet"
  /\ Emit(<<[ev |-> "Deliver", p |-> P, off |-> Head(ch).off, d |-> Head(ch).d]>>)
  /\ ch' = Tail(ch)
  /\ UNCHANGED <<hi, lo, cpos, phase, q, nxt, paused, com, ncom, stored, nf, nt, stop>>

Pause ==
  /\ stop = "no"
  /\ paused \/ Len(ch) <= Cap
  /\ paused' = ~paused
  /\ Emit(<<[ev |-> IF paused THEN "Resume" ELSE "Pause"]>>)
  /\ UNCHANGED <<hi, lo, cpos, phase, q, nxt, ch, com, ncom, stored, nf, nt, stop>>

(* -------------------------------------------------------------- commits   *)
Started == phase \notin {"start", "list"}
Read == /\ Group /\ Started /\ com = -1 /\ ncom < MaxCommits /\ stop \in {"no", "asked"}
        /\ cpos # stored /\ com' = cpos /\ ncom' = ncom + 1
        /\ UNCHANGED <<s, bad, hi, lo, cpos, phase, q, nxt, ch, paused, stored, nf, nt, stop>>
Commit ==
  /\ com # -1
  /\ Emit(<<[ev |-> "Commit", p |-> P, off |-> com, mine |-> TRUE]>>)
  /\ com' = -1
  /\ \/ stored' = com /\ UNCHANGED nf
     \/ Fails /\ UNCHANGED stored
  /\ UNCHANGED <<hi, lo, cpos, phase, q, nxt, ch, paused, ncom, nt, stop>>

(* ----------------------------------------------------------------- stop   *)
Stop == /\ stop = "no" /\ stop' = "asked" /\ paused' = FALSE
        /\ Emit(IF paused THEN <<[ev |-> "Resume"], [ev |-> "Stop"]>> ELSE <<[ev |-> "Stop"]>>)
        /\ UNCHANGED <<hi, lo, cpos, phase, q, nxt, ch, com, ncom, stored, nf, nt>>
LastCommit ==         \* the loop has ended, and with it the other commits
  /\ stop = "asked" /\ phase \in {"idle", "start", "list"} /\ com = -1
  /\ IF Group /\ Started /\ cpos # stored /\ Bug # "nofinal"
     THEN stored' = cpos /\ Emit(<<[ev |-> "Commit", p |-> P, off |-> cpos, mine |-> TRUE], [ev |-> "Stopped"]>>)
     ELSE UNCHANGED stored /\ Emit(<<[ev |-> "Stopped"]>>)
  /\ stop' = "stopped"
  /\ UNCHANGED <<hi, lo, cpos, phase, q, nxt, ch, paused, com, ncom, nf, nt>>
Quiet ==
  /\ stop = "stopped" /\ ch = <<>>
  /\ stop' = "quiet"
  /\ Emit(<<[ev |-> "Final", p |-> P, c |-> stored, fair |-> TRUE], [ev |-> "Quiet"], [ev |-> "Done"]>>)
  /\ UNCHANGED <<hi, lo, cpos, phase, q, nxt, ch, paused, com, ncom, stored, nf, nt>>

Next == \/ Grow \/ Trim \/ AskCommitted \/ AskEnd \/ Fetch \/ Answer \/ Hand \/ Take \/ Pause
        \/ Read \/ Commit \/ Stop \/ LastCommit \/ Quiet
        \/ stop = "quiet" /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- checked   *)
Refused == bad = <<>>

(* In their own words: what was committed was handed over, ...                *)
CommittedIsHanded ==
  \A j \in 1..Len(RecsUpTo(hi)) :
    LET r == RecsUpTo(hi)[j] IN
    (s.part[P].pos >= 0 /\ s.part[P].old < 0 /\ com >= 0 /\ r.off >= s.part[P].floor /\ r.off < com)
      => r.off < cpos
(* ... and nothing waits in the client when the consumer asks for more.       *)
NothingLeft == phase = "wait" => q = <<>>

(* Progress: left alone, everything stored reaches the application (no trim,  *)
(* no stop).                                                                  *)
Caught == s.part[P].segs # <<>> /\ Spent(s.part[P], s.part[P].segs[Len(s.part[P].segs)]) /\ ch = <<>>
FairNext == Next
Live == /\ Init /\ [][Next]_vars
        /\ WF_vars(AskCommitted) /\ WF_vars(AskEnd) /\ WF_vars(Fetch) /\ WF_vars(Answer)
        /\ WF_vars(Hand) /\ WF_vars(Take) /\ WF_vars(Grow) /\ WF_vars(Pause /\ paused)
AllDelivered == (<>(stop # "no")) \/ (<>[](Caught)) \/ ([]<>paused)
=============================================================================
