------------------------------- MODULE MCTool -------------------------------
(* The design of the offset commands: learn the leaders, ask each leader for  *)
(* its partitions in any order, then print, or find the coordinator and       *)
(* commit.  Any answer may be an error or get lost.  Between two runs leaders *)
(* and coordinators move and logs grow.  Every observable step is submitted   *)
(* to the specification Tool; what the coordinator stores is checked apart.   *)
EXTENDS Tool

CONSTANTS Nodes, Parts, MaxRuns, MaxShifts, MaxFaults, Bug

VARIABLES s, bad,
          lead, end, coord, store,       \* the cluster; store: what is committed for group g
          pc, run, left, have, com,      \* the tool
          before, nr, ns, nf
vars == <<s, bad, lead, end, coord, store, pc, run, left, have, com, before, nr, ns, nf>>

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF OMay(r.s, Head(evs)) THEN [s |-> ODo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

SetQ(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
EachQ(S, F(_)) == LET q == SetQ(S) IN [i \in 1..Len(q) |-> F(q[i])]
PartEv(f) == EachQ(Parts, LAMBDA p : [ev |-> "Part", t |-> "t", p |-> p, n |-> f[p]])
Fault == [ev |-> "Fault", what |-> "x"]

Init == /\ lead \in [Parts -> Nodes] /\ coord \in Nodes
        /\ end = [p \in Parts |-> p + 1] /\ store = [p \in Parts |-> -1]
        /\ LET r == Fold([s |-> OStart([x |-> 0]), bad |-> <<>>], PartEv(lead) \o <<[ev |-> "Coord", g |-> "g", n |-> coord]>>) IN
           s = r.s /\ bad = r.bad
        /\ pc = "idle" /\ run = [cmd |-> "none", ps |-> {}] /\ left = {} /\ have = Empty /\ com = Empty /\ before = store
        /\ nr = 0 /\ ns = 0 /\ nf = 0

Shift ==
  /\ pc = "idle" /\ ns < MaxShifts /\ ns' = ns + 1
  /\ \/ \E p \in Parts, n \in Nodes : n # lead[p] /\ lead' = [lead EXCEPT ![p] = n] /\ Emit(<<[ev |-> "Part", t |-> "t", p |-> p, n |-> n]>>)
                                      /\ UNCHANGED <<end, coord>>
     \/ \E n \in Nodes : n # coord /\ coord' = n /\ Emit(<<[ev |-> "Coord", g |-> "g", n |-> n]>>) /\ UNCHANGED <<end, lead>>
     \/ \E p \in Parts : end' = [end EXCEPT ![p] = @ + 2] /\ UNCHANGED <<s, bad, lead, coord>>
  /\ UNCHANGED <<store, pc, run, left, have, com, before, nr, nf>>

Start ==
  /\ pc = "idle" /\ nr < MaxRuns /\ nr' = nr + 1
  /\ \E cmd \in {"get-offsets", "get-pending", "reset-offset"}, ps \in SUBSET Parts :
       /\ cmd # "reset-offset" => ps = Parts
       /\ ps # {}
       /\ run' = [cmd |-> cmd, ps |-> ps]
       /\ Emit(<<[ev |-> "Run", cmd |-> cmd, t |-> "t", groups |-> IF cmd = "get-offsets" THEN <<>> ELSE <<"g">>, ts |-> -1,
                  ps |-> SetQ(ps), all |-> ps = Parts, total |-> cmd = "get-pending", fault |-> FALSE]>>)
  /\ pc' = "ask" /\ left' = Parts /\ before' = store
  /\ have' = IF Bug = "stale" THEN have ELSE Empty
  /\ com' = Empty
  /\ UNCHANGED <<lead, end, coord, store, ns, nf>>

Exit(ok, evs) == Emit(evs \o <<[ev |-> "Exit", ok |-> ok]>>) /\ pc' = "idle" /\ left' = {}

Ask(p) ==
  /\ pc = "ask" /\ p \in left
  /\ LET n == IF Bug = "anybroker" THEN coord ELSE lead[p]
         ask == [ev |-> "Ask", n |-> n, t |-> "t", p |-> p, ts |-> IF Bug = "earliest" THEN -2 ELSE -1] IN
     \/ /\ left' = left \ {p}
        /\ have' = IF Bug = "stale" /\ p \in DOMAIN have THEN have
                   ELSE IF Bug = "lastonly" THEN (p :> end[p]) ELSE Put1(have, p, end[p])
        /\ Emit(<<ask, [ev |-> "Told", n |-> n, t |-> "t", p |-> p, off |-> end[p], ts |-> -1, code |-> 0]>>)
        /\ UNCHANGED <<pc, nf>>
     \/ /\ nf < MaxFaults /\ nf' = nf + 1
        /\ \/ Exit(FALSE, <<ask, Fault>>) /\ UNCHANGED have
           \/ LET told == <<ask, [ev |-> "Told", n |-> n, t |-> "t", p |-> p, off |-> -1, ts |-> -1, code |-> 6], Fault>> IN
              IF Bug = "ignoreerr"
              THEN Emit(told) /\ left' = left \ {p} /\ have' = Put1(have, p, -1) /\ UNCHANGED pc
              ELSE Exit(FALSE, told) /\ UNCHANGED have
  /\ UNCHANGED <<lead, end, coord, store, run, com, before, nr, ns>>

Off(p) == IF p \in DOMAIN have THEN have[p] ELSE 0
OffsetLine(p) == [ev |-> "Line", kind |-> "offset", t |-> "t", p |-> p, off |-> Off(p), ts |-> -1]
PrintOffsets ==
  /\ pc = "ask" /\ left = {} /\ run.cmd = "get-offsets"
  /\ Exit(TRUE, EachQ(IF Bug = "skip" THEN Parts \ {CHOOSE p \in Parts : TRUE} ELSE Parts, OffsetLine))
  /\ UNCHANGED <<lead, end, coord, store, run, have, com, before, nr, ns, nf>>

LagOf(p) == IF Bug = "lagsign" THEN com[p] - have[p] ELSE have[p] - com[p]
PendLine(p) == [ev |-> "Line", kind |-> "pending", g |-> "g", t |-> "t", p |-> p, end |-> have[p], com |-> com[p], lag |-> LagOf(p), m |-> ""]
Pending ==
  /\ pc = "ask" /\ left = {} /\ run.cmd = "get-pending"
  /\ \/ /\ com' = store /\ pc' = "print"
        /\ Emit(<<[ev |-> "FetchAsk", n |-> IF Bug = "wrongcoord" THEN CHOOSE n \in Nodes : TRUE ELSE coord, g |-> "g"]>> \o
                EachQ(Parts, LAMBDA p : [ev |-> "Fetched", n |-> coord, g |-> "g", t |-> "t", p |-> p, off |-> store[p], code |-> 0]))
        /\ UNCHANGED nf
     \/ nf < MaxFaults /\ nf' = nf + 1 /\ Exit(TRUE, <<[ev |-> "FetchAsk", n |-> coord, g |-> "g"], Fault>>) /\ UNCHANGED com
  /\ UNCHANGED <<lead, end, coord, store, run, left, have, before, nr, ns>>
PrintPending ==
  /\ pc = "print" /\ DOMAIN have = Parts
  /\ Exit(TRUE, EachQ(Parts, PendLine) \o
                <<[ev |-> "Line", kind |-> "total", g |-> "g", t |-> "t", end |-> Sum(Parts, LAMBDA p : have[p]),
                   com |-> Sum(Parts, LAMBDA p : com[p]), lag |-> Sum(Parts, LAMBDA p : LagOf(p))]>>)
  /\ UNCHANGED <<lead, end, coord, store, run, have, com, before, nr, ns, nf>>

Commit ==
  /\ pc = "ask" /\ left = {} /\ run.cmd = "reset-offset"
  /\ LET ps == IF Bug = "allparts" THEN Parts ELSE run.ps \cap DOMAIN have
         n == IF Bug = "wrongcoord" THEN CHOOSE n \in Nodes : TRUE ELSE coord
         put == [ev |-> "Put", n |-> n, g |-> "g", rows |-> EachQ(ps, LAMBDA p : [t |-> "t", p |-> p, off |-> Off(p)])] IN
     \/ /\ store' = [p \in Parts |-> IF p \in ps THEN Off(p) ELSE store[p]]
        /\ Exit(TRUE, <<put, [ev |-> "PutAns", code |-> 0]>>) /\ UNCHANGED nf
     \/ /\ nf < MaxFaults /\ nf' = nf + 1 /\ UNCHANGED store
        /\ Exit(Bug = "swallow", <<put, [ev |-> "PutAns", code |-> 16], Fault>>)
  /\ UNCHANGED <<lead, end, coord, run, have, com, before, nr, ns>>

Next == Shift \/ Start \/ (\E p \in left : Ask(p)) \/ PrintOffsets \/ Pending \/ PrintPending \/ Commit \/ UNCHANGED vars

Refused == bad = <<>>
(* a reset that reports success has moved the chosen partitions to the log    *)
(* end, and no others; nothing else ever moves one                            *)
ResetExact == pc = "idle" /\ run.cmd # "none" /\ bad = <<>> =>
                \A p \in Parts : store[p] # before[p] => run.cmd = "reset-offset" /\ p \in run.ps /\ store[p] <= end[p]
=============================================================================
