------------------------------ MODULE MCGroup -------------------------------
(* The design of healer's group members against a coordinator: join, sync,    *)
(* start where the group committed, fetch, deliver and then advance, commit,  *)
(* heartbeat; stop everything before joining again; commit and leave on       *)
(* close.  The coordinator expels, members crash, answers are errors.  Every  *)
(* observable step is submitted to the specification Group.                   *)
EXTENDS Group

CONSTANTS NM,            \* members
          NP,            \* partitions
          HiMax,         \* records per partition
          Begin0,        \* start at the beginning where nothing is committed
          MaxExpire, MaxCrash, MaxClose, MaxErr, MaxReb,
          Stays,         \* the first member neither closes nor crashes
          Bug

MS == {"c" \o ToString(i) : i \in 1..NM}
TPs == [i \in 1..NP |-> "ta/" \o ToString(i - 1)]
TPset == SeqSet(TPs)

VARIABLES s, bad, mm, c, com, hi, nx, nc, nl, ne, nr
vars == <<s, bad, mm, c, com, hi, nx, nc, nl, ne, nr>>

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF GMay(r.s, Head(evs)) THEN [s |-> GDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

AllParts == [i \in 1..NP |-> i - 1]
RECURSIVE Boot(_, _)
Boot(st, evs) == IF evs = <<>> THEN st ELSE Boot(GDo(st, Head(evs)), Tail(evs))
SeqOf(S) == LET f == CHOOSE f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b] IN f
MSeq == SeqOf(MS)

Fresh == [ pc |-> "off", mid |-> "", amid |-> "", gen |-> -1, leads |-> FALSE,
           own |-> {}, st |-> [t \in TPset |-> "none"], pos |-> [t \in TPset |-> 0], lastc |-> [t \in TPset |-> -1],
           was |-> "off" ]

Init ==
  /\ mm = [m \in MS |-> Fresh]
  /\ c = [state |-> "Empty", gen |-> 0, mem |-> {}, re |-> {}, leader |-> "", asg |-> [m \in {} |-> {}],
          idof |-> [m \in MS |-> ""], n |-> [m \in MS |-> 0]]
  /\ com = [t \in TPset |-> -1] /\ hi = [t \in TPset |-> 1]
  /\ nx = 0 /\ nc = 0 /\ nl = 0 /\ ne = 0 /\ nr = 0 /\ bad = <<>>
  /\ s = Boot(GStart([begin |-> Begin0, auto |-> TRUE, cap |-> 0,
                      members |-> [i \in 1..NM |-> [m |-> MSeq[i], topic |-> "ta"]]]),
              [i \in 1..NP |-> [ev |-> "Store", tp |-> TPs[i], hi |-> 1]]
              \o [i \in 1..NM |-> [ev |-> "Meta", m |-> MSeq[i], topics |-> <<[t |-> "ta", ps |-> AllParts]>>]])

Id(m) == c.idof[m]
Err == ne < MaxErr /\ ne' = ne + 1

(* --------------------------------------------------------- environment    *)
Grow == \E t \in TPset : /\ hi[t] < HiMax /\ hi' = [hi EXCEPT ![t] = @ + 1]
                         /\ Emit(<<[ev |-> "Store", tp |-> t, hi |-> hi'[t]]>>)
                         /\ UNCHANGED <<mm, c, com, nx, nc, nl, ne, nr>>

Without(id) == [c EXCEPT !.mem = @ \ {id}, !.re = @ \ {id}, !.state = IF c.mem = {id} THEN "Empty" ELSE "Prep"]

OwnerOf(id) == CHOOSE m \in MS : \E k \in 1..9 : id = m \o "-" \o ToString(k)
Ghost(id) == LET m == OwnerOf(id) IN
  \/ mm[m].pc \in {"dead", "left", "off"}
  \/ mm[m].mid # id /\ mm[m].amid # id /\ ~(mm[m].pc = "waitjoin" /\ c.idof[m] = id)
  \/ mm[m].mid # id /\ mm[m].pc \in {"start", "waitjoin"} /\ ~(mm[m].pc = "waitjoin" /\ c.idof[m] = id)
Reap == \E id \in c.mem : Ghost(id) /\ c' = Without(id) /\ UNCHANGED <<s, bad, mm, com, hi, nx, nc, nl, ne, nr>>

Expire == \E id \in c.mem :
  /\ nx < MaxExpire /\ nx' = nx + 1 /\ ~(s.mem[OwnerOf(id)].fair)
  /\ c' = Without(id)
  /\ Emit(<<[ev |-> "Expire", mid |-> id]>>)
  /\ UNCHANGED <<mm, com, hi, nc, nl, ne, nr>>

Rebalance == /\ nr < MaxReb /\ nr' = nr + 1 /\ c.state = "Stable"
             /\ c' = [c EXCEPT !.state = "Prep", !.re = {}]
             /\ UNCHANGED <<s, bad, mm, com, hi, nx, nc, nl, ne>>

Crash == \E m \in MS : /\ nc < MaxCrash /\ nc' = nc + 1 /\ mm[m].pc \notin {"off", "dead", "left", "closing"}
                       /\ ~(Stays /\ m = "c1")
                       /\ mm' = [mm EXCEPT ![m] = [Fresh EXCEPT !.pc = "dead"]]
                       /\ Emit(<<[ev |-> "Mute", m |-> m]>>)
                       /\ UNCHANGED <<c, com, hi, nx, nl, ne, nr>>

(* --------------------------------------------------------------- member   *)
Begin == \E m \in MS : /\ mm[m].pc = "off"
                       /\ mm' = [mm EXCEPT ![m].pc = "start"]
                       /\ Emit(<<[ev |-> "Begin", m |-> m]>>)
                       /\ UNCHANGED <<c, com, hi, nx, nc, nl, ne, nr>>

JoinEv(m, mid) == [ev |-> "JoinReq", m |-> m, r |-> 0, mid |-> mid, subs |-> <<"ta">>, protos |-> <<"range">>, mine |-> TRUE]
JoinBad(m, code) == [ev |-> "JoinResp", m |-> m, r |-> 0, code |-> code, mid |-> "", gen |-> -1, leads |-> FALSE, members |-> <<>>]

Join == \E m \in MS :
  /\ mm[m].pc = "start"
  /\ LET mid == mm[m].mid
         id == IF mid = "" THEN m \o "-" \o ToString(c.n[m] + 1) ELSE mid IN
     IF mid # "" /\ mid \notin c.mem
     THEN /\ Emit(<<JoinEv(m, mid), JoinBad(m, 25)>>)
          /\ mm' = [mm EXCEPT ![m].mid = IF Bug = "keepid" THEN @ ELSE ""]
          /\ UNCHANGED <<c, ne>>
     ELSE \/ /\ Emit(<<JoinEv(m, mid)>>)
             /\ c' = [c EXCEPT !.mem = @ \cup {id}, !.re = IF c.state = "Prep" THEN @ \cup {id} ELSE {id}, !.state = "Prep",
                               !.idof[m] = id, !.n[m] = IF mid = "" THEN @ + 1 ELSE @]
             /\ mm' = [mm EXCEPT ![m].pc = "waitjoin"]
             /\ UNCHANGED ne
          \/ /\ Err /\ Emit(<<JoinEv(m, mid), JoinBad(m, 16)>>) /\ UNCHANGED <<c, mm>>
  /\ UNCHANGED <<com, hi, nx, nc, nl, nr>>

JoinLost == \E m \in MS :       \* expelled while it waited
  /\ mm[m].pc = "waitjoin" /\ Id(m) \notin c.mem
  /\ Emit(<<JoinBad(m, 25)>>)
  /\ mm' = [mm EXCEPT ![m].pc = "start", ![m].mid = ""]
  /\ UNCHANGED <<c, com, hi, nx, nc, nl, ne, nr>>

Waiting == {m \in MS : mm[m].pc = "waitjoin" /\ Id(m) \in c.mem}
MembersNow == LET q == SeqOf(c.mem) IN [i \in 1..Len(q) |-> [id |-> q[i], subs |-> <<"ta">>]]
CompleteJoin ==
  /\ c.state = "Prep" /\ c.re = c.mem /\ c.mem # {} /\ Waiting # {}
  /\ LET w == SeqOf(Waiting)
         leader == Id(w[1])
         g == c.gen + 1 IN
     /\ c' = [c EXCEPT !.state = "Sync", !.gen = g, !.leader = leader, !.re = {}]
     /\ mm' = [m \in MS |-> IF m \in Waiting
                            THEN [mm[m] EXCEPT !.pc = "joined", !.mid = Id(m), !.amid = Id(m), !.gen = g, !.leads = Id(m) = leader]
                            ELSE mm[m]]
     /\ Emit([i \in 1..Len(w) |-> [ev |-> "JoinResp", m |-> w[i], r |-> 0, code |-> 0, mid |-> Id(w[i]), gen |-> g,
                                   leads |-> i = 1, members |-> IF i = 1 THEN MembersNow ELSE <<>>]])
  /\ UNCHANGED <<com, hi, nx, nc, nl, ne, nr>>

(* Range assignment: member k of n gets a contiguous share.                   *)
RangeShare(k, n) ==
  LET base == NP \div n  extra == NP % n
      from == (k - 1) * base + (IF k - 1 < extra THEN k - 1 ELSE extra)
      len == base + (IF k - 1 < extra THEN 1 ELSE 0) IN
  [i \in 1..len |-> [t |-> "ta", p |-> from + i - 1]]
MakeAsg(q) ==    \* the leader knows the members it was told of
  LET ids == SeqOf({q[i].id : i \in 1..Len(q)})  n == Len(ids) IN
  [k \in 1..n |-> [id |-> ids[k], tps |-> IF Bug = "unfair" /\ k = 1 THEN [i \in 1..NP |-> [t |-> "ta", p |-> i - 1]]
                                          ELSE IF Bug = "unfair" THEN <<>> ELSE RangeShare(k, n)]]

Sync == \E m \in MS :
  /\ mm[m].pc = "joined"
  /\ LET asg == IF mm[m].leads THEN MakeAsg(s.mem[m].mates) ELSE <<>>
         id == mm[m].amid
         valid == id \in c.mem /\ mm[m].gen = c.gen /\ c.state = "Sync" IN
     /\ Emit(<<[ev |-> "SyncReq", m |-> m, r |-> 0, mid |-> id, gen |-> mm[m].gen, asg |-> asg, mine |-> TRUE]>>)
     /\ c' = IF mm[m].leads /\ valid
             THEN [c EXCEPT !.state = "Stable",
                            !.asg = [x \in {asg[i].id : i \in 1..Len(asg)} |->
                                      LET j == CHOOSE j \in 1..Len(asg) : asg[j].id = x IN
                                      {"ta/" \o ToString(asg[j].tps[i].p) : i \in 1..Len(asg[j].tps)}]]
             ELSE c
     /\ mm' = [mm EXCEPT ![m].pc = IF Bug = "earlyfetch" THEN "in" ELSE "waitsync",
                         ![m].own = IF Bug = "earlyfetch" THEN TPset ELSE @]
  /\ UNCHANGED <<com, hi, nx, nc, nl, ne, nr>>

Verdict(m) == IF mm[m].amid \notin c.mem THEN 25
              ELSE IF mm[m].gen # c.gen THEN 22
              ELSE IF c.state = "Stable" THEN 0 ELSE 27

SyncAnswer == \E m \in MS :
  /\ mm[m].pc = "waitsync"
  /\ ~(Verdict(m) = 27 /\ c.state = "Sync")
  /\ \/ /\ Verdict(m) = 0
        /\ LET own == At(c.asg, mm[m].amid, {}) IN
           /\ Emit(<<[ev |-> "SyncResp", m |-> m, r |-> 0, code |-> 0, tps |-> SeqOf(own)]>>)
           /\ mm' = [mm EXCEPT ![m].pc = "in", ![m].own = own]
        /\ UNCHANGED ne
     \/ \E code \in {Verdict(m), 16} :
        /\ code # 0 /\ (IF code = Verdict(m) THEN UNCHANGED ne ELSE Err)
        /\ Emit(<<[ev |-> "SyncResp", m |-> m, r |-> 0, code |-> code, tps |-> <<>>]>>)
        /\ mm' = [mm EXCEPT ![m].pc = "start", ![m].mid = IF code = 25 \/ Bug = "dropid" THEN "" ELSE @]
  /\ UNCHANGED <<c, com, hi, nx, nc, nl, nr>>

(* A heartbeat is accepted and changes nothing, or tells the member to rejoin.*)
Beat == \E m \in MS : \E code \in {Verdict(m), 16} :
  /\ mm[m].pc = "in" /\ code # 0 /\ mm[m].own = s.mem[m].asg
  /\ (IF code = Verdict(m) THEN UNCHANGED ne ELSE Err)
  /\ Emit(<<[ev |-> "HB", m |-> m, r |-> 0, mid |-> mm[m].amid, gen |-> mm[m].gen, mine |-> TRUE],
            [ev |-> "HBResp", m |-> m, r |-> 0, code |-> code]>>)
  /\ mm' = [mm EXCEPT ![m].pc = IF Bug = "norejoin" /\ code = 27 THEN "idle" ELSE IF Bug = "nostop" THEN "start" ELSE "stop",
                      ![m].mid = IF (code = 25 /\ Bug # "keepid") \/ (Bug = "dropid" /\ code = 27) THEN "" ELSE @]
  /\ UNCHANGED <<c, com, hi, nx, nc, nl, nr>>

Consuming(m) == mm[m].pc \in {"in", "stop"} \/ (Bug = "nostop" /\ mm[m].pc \in {"start", "waitjoin", "joined"})

(* Commits of everything that runs, in order, each judged by the coordinator. *)
Judge(m) == IF mm[m].amid \notin c.mem THEN 25 ELSE IF mm[m].gen # c.gen THEN 22 ELSE 0
Running(m) == {t \in TPset : mm[m].st[t] \in {"run", "got"}}
CommitEvs(m, t, code) ==
  << [ev |-> "Commit", m |-> m, tp |-> t, off |-> mm[m].pos[t], mine |-> TRUE, mid |-> mm[m].amid,
      gen |-> IF Bug = "nogen" THEN -1 ELSE mm[m].gen],
     [ev |-> "CommitResp", m |-> m, tp |-> t, off |-> mm[m].pos[t], code |-> code] >>
RECURSIVE Commits(_, _, _)
Commits(m, q, code) == IF q = <<>> THEN <<>> ELSE CommitEvs(m, Head(q), code) \o Commits(m, Tail(q), code)
AfterCommit(m, S, code) == [t \in TPset |-> IF t \in S /\ code = 0 THEN mm[m].pos[t] ELSE com[t]]
Due(m) == {t \in Running(m) : mm[m].pos[t] # mm[m].lastc[t]}

Stop == \E m \in MS :
  /\ mm[m].pc = "stop"
  /\ Emit(Commits(m, SeqOf(Due(m)), Judge(m)))
  /\ com' = AfterCommit(m, Due(m), Judge(m))
  /\ mm' = [mm EXCEPT ![m].pc = "start", ![m].own = {}, ![m].st = [t \in TPset |-> "none"], ![m].lastc = [t \in TPset |-> -1]]
  /\ UNCHANGED <<c, hi, nx, nc, nl, ne, nr>>

Commit == \E m \in MS : \E t \in Due(m) : \E code \in {Judge(m), 16} :
  /\ mm[m].pc = "in"
  /\ (IF code = Judge(m) THEN UNCHANGED ne ELSE Err)
  /\ Emit(CommitEvs(m, t, code))
  /\ com' = AfterCommit(m, {t}, code)
  /\ mm' = [mm EXCEPT ![m].lastc[t] = IF code = 0 THEN mm[m].pos[t] ELSE @]
  /\ UNCHANGED <<c, hi, nx, nc, nl, nr>>

AskOff == \E m \in MS : \E t \in mm[m].own :
  /\ mm[m].pc = "in" /\ mm[m].st[t] = "none"
  /\ Emit(<<[ev |-> "OffReq", m |-> m, tp |-> t, mine |-> TRUE], [ev |-> "OffResp", m |-> m, tp |-> t, code |-> 0, off |-> com[t]]>>)
  /\ mm' = [mm EXCEPT ![m].st[t] = IF com[t] >= 0 /\ Bug # "latest" THEN "run" ELSE "list", ![m].pos[t] = com[t], ![m].lastc[t] = com[t]]
  /\ UNCHANGED <<c, com, hi, nx, nc, nl, ne, nr>>
AskEnd == \E m \in MS : \E t \in TPset :
  /\ mm[m].pc = "in" /\ mm[m].st[t] = "list"
  /\ LET o == IF Begin0 THEN 0 ELSE hi[t] IN
     /\ Emit(<<[ev |-> "ListReq", m |-> m, tp |-> t, ts |-> IF Begin0 THEN -2 ELSE -1],
               [ev |-> "ListResp", m |-> m, tp |-> t, code |-> 0, off |-> o]>>)
     /\ mm' = [mm EXCEPT ![m].st[t] = "run", ![m].pos[t] = o]
  /\ UNCHANGED <<c, com, hi, nx, nc, nl, ne, nr>>
Fetch == \E m \in MS : \E t \in TPset :
  /\ Consuming(m) /\ mm[m].st[t] = "run" /\ mm[m].pos[t] < hi[t]
  /\ Emit(<<[ev |-> "Fetch", m |-> m, tp |-> t, off |-> mm[m].pos[t]]>>)
  /\ mm' = [mm EXCEPT ![m].st[t] = "got"]
  /\ UNCHANGED <<c, com, hi, nx, nc, nl, ne, nr>>
Deliver == \E m \in MS : \E t \in TPset :
  /\ Consuming(m) /\ mm[m].st[t] = "got"
  /\ Emit(<<[ev |-> "Deliver", m |-> m, tp |-> t, off |-> mm[m].pos[t], right |-> TRUE]>>)
  /\ mm' = [mm EXCEPT ![m].st[t] = "run", ![m].pos[t] = @ + 1]
  /\ UNCHANGED <<c, com, hi, nx, nc, nl, ne, nr>>

Close == \E m \in MS :
  /\ nl < MaxClose /\ nl' = nl + 1 /\ mm[m].pc \notin {"off", "dead", "left", "closing"} /\ ~(Stays /\ m = "c1")
  /\ mm' = [mm EXCEPT ![m].pc = "closing", ![m].was = mm[m].pc]
  /\ Emit(<<[ev |-> "Stop", m |-> m, fair |-> mm[m].pc = "in" /\ Verdict(m) = 0]>>)
  /\ UNCHANGED <<c, com, hi, nx, nc, ne, nr>>
Closed == \E m \in MS :
  /\ mm[m].pc = "closing"
  /\ LET D == IF mm[m].was \in {"in", "stop"} /\ Bug # "nofinal" THEN Due(m) ELSE {}
         id == mm[m].mid
         leave == id # "" /\ Bug # "noleave" IN
     /\ Emit(Commits(m, SeqOf(D), Judge(m))
             \o (IF leave THEN <<[ev |-> "Leave", m |-> m, mid |-> id, mine |-> TRUE]>> ELSE <<>>)
             \o <<[ev |-> "Stopped", m |-> m], [ev |-> "Gone", m |-> m, in |-> id \in c.mem /\ ~leave], [ev |-> "Quiet", m |-> m]>>)
     /\ com' = AfterCommit(m, D, Judge(m))
     /\ c' = IF leave /\ id \in c.mem THEN Without(id) ELSE c
     /\ mm' = [mm EXCEPT ![m] = [Fresh EXCEPT !.pc = "left"]]
  /\ UNCHANGED <<hi, nx, nc, nl, ne, nr>>

Own == Begin \/ Join \/ JoinLost \/ Sync \/ Beat \/ Stop \/ AskOff \/ AskEnd \/ Fetch \/ Deliver \/ Closed
Coord == Reap \/ CompleteJoin \/ SyncAnswer
Next == bad = <<>> /\ (Own \/ Coord \/ Commit \/ Grow \/ Expire \/ Rebalance \/ Crash \/ Close)
Spec == Init /\ [][Next]_vars

(* A joined member that must beat: only verdicts count as progress.           *)
BeatBad == Beat /\ ne' = ne
JoinGood == Join /\ ne' = ne
Live == Spec /\ WF_vars(Begin) /\ WF_vars(JoinGood) /\ WF_vars(JoinLost) /\ WF_vars(Sync) /\ WF_vars(BeatBad)
             /\ WF_vars(Stop) /\ WF_vars(AskOff) /\ WF_vars(AskEnd) /\ WF_vars(Fetch) /\ WF_vars(Deliver)
             /\ WF_vars(Closed) /\ WF_vars(Reap) /\ WF_vars(CompleteJoin) /\ WF_vars(SyncAnswer) /\ WF_vars(Grow)

Refused == bad = <<>>
Handed(t) == At(s.del, t, {})
(* Nothing is committed that was not delivered: it would never be.            *)
CommittedIsDelivered == Begin0 => \A t \in TPset : \A o \in 0..(com[t] - 1) : o \in Handed(t)
(* Two members that the coordinator holds in the current generation, and that *)
(* know it, never share a partition.                                          *)
OneOwner == \A a, b \in MS : \A t \in TPset :
  (a # b /\ mm[a].pc = "in" /\ mm[b].pc = "in" /\ mm[a].gen = mm[b].gen /\ t \in mm[a].own) => t \notin mm[b].own
AllDelivered == <>(\A t \in TPset : \A o \in 0..(HiMax - 1) : o \in Handed(t))
=============================================================================
