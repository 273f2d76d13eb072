------------------------------ MODULE MCAdmin -------------------------------
(* The design of healer's administrative calls: learn the layout, split the   *)
(* work over the brokers responsible for it, ask each in turn with the best   *)
(* version its connection negotiated, gather the answers.  Between calls      *)
(* leaders, coordinators and the controller move and brokers are upgraded or  *)
(* downgraded (which closes their connections).  Answers may carry errors or  *)
(* get lost.  Every observable step is submitted to the specification Admin.  *)
EXTENDS Admin

CONSTANTS NN, NP,                \* nodes, partitions
          MaxCalls, MaxShifts, Bug

VARIABLES s, bad, lay, range, conn, todo, got, fail, op, nc, ns

vars == <<s, bad, lay, range, conn, todo, got, fail, op, nc, ns>>
Nodes == 1..NN
Parts == 0..(NP - 1)
Gs == {"g1", "g2"}
Ops == {"ListGroups", "DeleteGroups", "Offsets", "CreateTopic"}
Ranges == {<<0, 0>>, <<0, 1>>, <<1, 4>>, <<0, 9>>}
NoConn == <<>>

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF AMay(r.s, Head(evs)) THEN [s |-> ADo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

Q(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
LayEv(l) == [ev |-> "Layout", ctl |-> l.ctl, nodes |-> Q(Nodes),
             topics |-> << [t |-> "t", parts |-> [i \in 1..NP |-> [p |-> ToString(i - 1), leader |-> l.lead[i - 1], reps |-> <<>>]]] >>,
             groups |-> [i \in 1..2 |-> [g |-> "g" \o ToString(i), n |-> l.coord["g" \o ToString(i)]]]]

Init == \E l \in [ctl : {1}, lead : {[p \in Parts |-> 1]}, coord : {[g \in Gs |-> 1]}] :
        /\ lay = l /\ s = ADo(AStart([x |-> 0]), LayEv(l)) /\ bad = <<>>
        /\ range = [n \in Nodes |-> <<0, 9>>] /\ conn = [n \in Nodes |-> NoConn]
        /\ todo = {} /\ got = <<>> /\ fail = "no" /\ op = "none" /\ nc = 0 /\ ns = 0

(* ------------------------------------------------ the cluster, between calls *)
Shift ==
  /\ op = "none" /\ ns < MaxShifts /\ ns' = ns + 1
  /\ \/ /\ \E n \in Nodes : \/ lay' = [lay EXCEPT !.ctl = n]
                            \/ \E p \in Parts : lay' = [lay EXCEPT !.lead[p] = n]
                            \/ \E g \in Gs : lay' = [lay EXCEPT !.coord[g] = n]
        /\ Emit(<<LayEv(lay')>>) /\ UNCHANGED <<range, conn>>
     \/ /\ \E n \in Nodes, r \in Ranges : range' = [range EXCEPT ![n] = r] /\ conn' = [conn EXCEPT ![n] = IF Bug = "oldver" THEN @ ELSE NoConn]
        /\ UNCHANGED <<s, bad, lay>>
  /\ UNCHANGED <<todo, got, fail, op, nc>>

(* ---------------------------------------------------------------- the client *)
Arg(o) == CASE o = "DeleteGroups" -> [groups |-> <<"g1", "g2">>]
            [] o = "Offsets" -> [topic |-> "t", pid |-> "-1", time |-> "5", n |-> "1"]
            [] o = "CreateTopic" -> [name |-> "n", num |-> "1", repl |-> "1", timeout |-> "9"]
            [] OTHER -> [x |-> "0"]
Shares(o) ==
  CASE o = "ListGroups" -> {[n |-> n, of |-> {"*"}] : n \in Nodes}
    [] o = "DeleteGroups" -> {[n |-> lay.coord[g], of |-> {g}] : g \in Gs}
    [] o = "Offsets" -> {[n |-> n, of |-> {p \in Parts : lay.lead[p] = n}] : n \in {lay.lead[p] : p \in Parts}}
    [] OTHER -> {[n |-> IF Bug = "anynode" THEN 1 ELSE lay.ctl, of |-> {"*"}]}

Begin(o) ==
  /\ op = "none" /\ nc < MaxCalls /\ nc' = nc + 1 /\ op' = o
  /\ todo' = IF Bug = "skip" /\ Cardinality(Shares(o)) > 1 THEN Shares(o) \ {CHOOSE x \in Shares(o) : TRUE} ELSE Shares(o)
  /\ got' = <<>> /\ fail' = "no"
  /\ Emit(<<[ev |-> "Call", op |-> o, a |-> Arg(o)]>>)
  /\ UNCHANGED <<lay, range, conn, ns>>

Ver(n, api) == LET r == IF conn[n] = NoConn THEN range[n] ELSE conn[n]
                   C == Common(api, r[1], r[2]) IN
               IF C = {} THEN 0 ELSE IF Bug = "lowest" THEN CHOOSE x \in C : \A y \in C : x <= y ELSE Max(C)

Body(o, x, ver) ==
  CASE o = "ListGroups" -> IF ver >= 5 THEN [states_filter |-> <<>>, types_filter |-> <<>>]
                           ELSE IF ver = 4 THEN [states_filter |-> <<>>] ELSE [none |-> "0"]
    [] o = "DeleteGroups" -> [names |-> Q(x.of)]
    [] o = "Offsets" -> [replica_id |-> "-1",
                         topics |-> << [name |-> "t", partitions |->
                                        LET q == Q(x.of) IN [i \in 1..Len(q) |-> IF ver = 0 THEN [index |-> ToString(q[i]), timestamp |-> "5", max_num_offsets |-> "1"]
                                                                                  ELSE [index |-> ToString(q[i]), timestamp |-> IF Bug = "time" THEN "-1" ELSE "5"]] ]>>]
    [] OTHER -> [topics |-> << [name |-> "n", num_partitions |-> "1", replication |-> "1", assignments |-> <<>>, configs |-> <<>>] >>, timeout |-> "9"]

Reply(o, x, code) ==
  LET c == ToString(code) IN
  CASE o = "ListGroups" -> [error |-> c, groups |-> << [group |-> "g" \o ToString(x.n)] >>]
    [] o = "DeleteGroups" -> [results |-> LET q == Q(x.of) IN [i \in 1..Len(q) |-> [group |-> q[i], error |-> c]]]
    [] o = "Offsets" -> [topics |-> << [name |-> "t", partitions |->
                          LET q == Q(x.of) IN [i \in 1..Len(q) |-> [index |-> ToString(q[i]), error |-> c, offset |-> ToString(10 + q[i])]]] >>]
    [] OTHER -> [topics |-> << [name |-> "n", error |-> c] >>]

Ask(x) ==
  /\ op # "none" /\ x \in todo /\ fail = "no"
  /\ todo' = todo \ {x}
  /\ LET api == ApiOf(op)  v == Ver(x.n, api)
         req == [ev |-> "Req", n |-> x.n, api |-> api, ver |-> v, ok |-> TRUE, lo |-> range[x.n][1], hi |-> range[x.n][2], body |-> Body(op, x, v)] IN
     /\ conn' = [conn EXCEPT ![x.n] = IF @ = NoConn THEN range[x.n] ELSE @]
     /\ \/ \E code \in {0, 7} :
             LET b == Reply(op, x, code) IN
             /\ Emit(<<req, [ev |-> "Ans", n |-> x.n, api |-> api, ver |-> v, body |-> b, codes |-> IF code = 0 THEN <<>> ELSE <<code>>]>>)
             /\ got' = IF Bug = "lastonly" THEN << [n |-> x.n, b |-> b] >> ELSE Append(got, [n |-> x.n, b |-> b])
             /\ fail' = IF code # 0 /\ Bug # "swallow" THEN "code" ELSE fail
        \/ /\ Emit(<<req, [ev |-> "Lost"]>>)
           /\ got' = got /\ fail' = IF Bug = "ignorelost" THEN fail ELSE "lost"
  /\ UNCHANGED <<lay, range, op, nc, ns>>

RECURSIVE All(_, _)
All(q, f) == IF q = <<>> THEN <<>> ELSE Head(q).b[f] \o All(Tail(q), f)
Value ==
  CASE op = "ListGroups" -> [i \in 1..Len(got) |-> [n |-> ToString(got[i].n), groups |-> got[i].b.groups]]
    [] op = "DeleteGroups" -> [results |-> IF got = <<>> THEN <<>> ELSE All(got, "results")]
    [] op = "Offsets" -> LET ts == All(got, "topics") IN
                         Cat([i \in 1..Len(ts) |-> [j \in 1..Len(ts[i].partitions) |-> [name |-> "t"] @@ ts[i].partitions[j]]])
    [] OTHER -> IF got = <<>> THEN [topics |-> <<>>] ELSE got[1].b

Return ==
  /\ op # "none" /\ (todo = {} \/ fail # "no")
  /\ op' = "none" /\ todo' = {} /\ got' = <<>> /\ fail' = "no"
  /\ Emit(<<IF fail # "no" THEN [ev |-> "Ret", err |-> TRUE, code |-> IF fail = "code" THEN 7 ELSE 0]
            ELSE [ev |-> "Ret", err |-> FALSE, val |-> Value]>>)
  /\ UNCHANGED <<lay, range, conn, nc, ns>>

Next == Shift \/ (\E o \in Ops : Begin(o)) \/ (\E x \in todo : Ask(x)) \/ Return \/ UNCHANGED vars

Refused == bad = <<>>
(* a connection speaks what the broker behind it speaks                       *)
Fresh == \A n \in Nodes : conn[n] = NoConn \/ conn[n] = range[n]
(* a call that ended well has heard from everyone responsible                 *)
Complete == (op # "none" /\ todo = {} /\ fail = "no") => {got[i].n : i \in 1..Len(got)} = {x.n : x \in Shares(op)}
=============================================================================
