------------------------------ MODULE MCFront -------------------------------
(* The design of the front ends: a call comes in with credentials, and what   *)
(* was typed may make no sense; the front end judges the credentials, reads   *)
(* the call, asks the brokers responsible for it and shows what they said.    *)
(* Two calls may come in one after the other; leaders of the work move in     *)
(* between.  Every observable step is submitted to the specification Front.   *)
EXTENDS Front

CONSTANTS NN,                    \* nodes
          MaxCalls, Bug

VARIABLES s, bad, lay, st, call, todo, got, fail, nc

vars == <<s, bad, lay, st, call, todo, got, fail, nc>>
Nodes == 1..NN
Gs == {"g1", "g2"}
None == [op |-> "none"]

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF FMay(r.s, Head(evs)) THEN [s |-> FDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

Q(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
LayEv(l) == [ev |-> "Layout", ctl |-> l.ctl, nodes |-> Q(Nodes), topics |-> <<>>,
             groups |-> [i \in 1..2 |-> [g |-> "g" \o ToString(i), n |-> l.coord["g" \o ToString(i)]]]]

Init == \E front \in {"cli", "api"}, guarded, getok \in BOOLEAN, ctl \in Nodes, coord \in [Gs -> Nodes] :
        /\ guarded => front = "api"
        /\ getok => guarded
        /\ lay = [ctl |-> ctl, coord |-> coord]
        /\ s = FDo(FStart([front |-> front, guarded |-> guarded, getok |-> getok]), LayEv(lay)) /\ bad = <<>>
        /\ st = "idle" /\ call = None /\ todo = {} /\ got = <<>> /\ fail = "no" /\ nc = 0

Ops == [ ListGroups |-> "GET", DeleteGroups |-> "POST", CreateTopic |-> "POST", IncrementalAlterConfigs |-> "POST", DescribeGroups |-> "GET" ]
Arg(o, n) == CASE o = "DeleteGroups" -> [groups |-> <<"g1", "g2">>]
               [] o = "DescribeGroups" -> [groups |-> <<"g2">>]
               [] o = "CreateTopic" -> [name |-> "n", num |-> "1", repl |-> "1", timeout |-> "9"]
               [] o = "IncrementalAlterConfigs" -> [entries |-> << [type |-> "4", name |-> ToString(n), k |-> "k", v |-> "v"] >>, validate |-> "false"]
               [] OTHER -> [x |-> "0"]

Move ==
  /\ st = "idle" /\ nc > 0
  /\ \E n \in Nodes : \/ lay' = [lay EXCEPT !.ctl = n]
                      \/ \E g \in Gs : lay' = [lay EXCEPT !.coord[g] = n]
  /\ Emit(<<LayEv(lay')>>)
  /\ UNCHANGED <<st, call, todo, got, fail, nc>>

Begin ==
  /\ st = "idle" /\ nc < MaxCalls /\ nc' = nc + 1 /\ st' = "auth"
  /\ \E o \in DOMAIN Ops, b \in BOOLEAN, au \in {"right", "wrong", "none"}, n \in Nodes :
       /\ (o # "IncrementalAlterConfigs") => n = 1
       /\ ~s.cfg.guarded => au = "none"
       /\ call' = [op |-> o, a |-> Arg(o, n), bad |-> b, auth |-> au, method |-> Ops[o]]
  /\ Emit(<<[ev |-> "Call"] @@ call'>>)
  /\ UNCHANGED <<lay, todo, got, fail>>

(* credentials first                                                          *)
Lets == ~s.cfg.guarded \/ call.auth = "right"
        \/ (s.cfg.getok /\ (call.method = "GET" \/ Bug = "getopen"))
        \/ (Bug = "noheader" /\ call.auth = "none") \/ (Bug = "get" /\ call.method = "GET")
Ret(err, status, val) ==
  [ev |-> "Ret", err |-> err, status |-> status, code |-> 0, said |-> ~err, read |-> ~err, val |-> val]
Auth ==
  /\ st = "auth"
  /\ IF Lets THEN st' = "read" /\ UNCHANGED <<s, bad, call>>
     ELSE st' = "idle" /\ call' = None /\ Emit(<<Ret(TRUE, IF Bug = "forbidden" THEN 403 ELSE 401, <<>>)>>)
  /\ UNCHANGED <<lay, todo, got, fail, nc>>

Shares(o, a) ==
  CASE o = "ListGroups" -> {[n |-> n, of |-> {"*"}] : n \in Nodes}
    [] o = "DeleteGroups" -> {[n |-> lay.coord[g], of |-> {g}] : g \in Gs}
    [] o = "DescribeGroups" -> {[n |-> lay.coord["g2"], of |-> {"*"}]}
    [] o = "IncrementalAlterConfigs" -> {[n |-> IF Bug = "toctl" THEN lay.ctl ELSE CHOOSE n \in Nodes : ToString(n) = a.entries[1].name, of |-> {"*"}]}
    [] OTHER -> {[n |-> lay.ctl, of |-> {"*"}]}
Read ==
  /\ st = "read"
  /\ IF call.bad /\ Bug # "sendbad"
     THEN st' = "idle" /\ call' = None /\ Emit(<<Ret(TRUE, 400, <<>>)>>) /\ UNCHANGED <<todo, got, fail>>
     ELSE /\ st' = "ask" /\ todo' = Shares(call.op, call.a) /\ got' = <<>> /\ fail' = "no" /\ UNCHANGED call
          /\ Emit(<<[ev |-> "Req", n |-> 1, api |-> "Metadata", ver |-> 0, ok |-> TRUE, lo |-> 0, hi |-> 9, body |-> [topics |-> <<>>]]>>)
  /\ UNCHANGED <<lay, nc>>

Body(o, a, x) ==
  CASE o = "ListGroups" -> [none |-> "0"]
    [] o = "DeleteGroups" -> [names |-> Q(x.of)]
    [] o = "DescribeGroups" -> [groups |-> IF Bug = "othergroup" THEN <<"g1">> ELSE a.groups]
    [] o = "IncrementalAlterConfigs" -> [resources |-> << [type |-> "4", name |-> a.entries[1].name, configs |-> << [name |-> "k", operation |-> "0", value |-> "v"] >>] >>, validate_only |-> "false"]
    [] OTHER -> [topics |-> << [name |-> "n", num_partitions |-> "1", replication |-> "1", assignments |-> <<>>, configs |-> <<>>] >>,
                 timeout |-> IF Bug = "trunc" THEN "1" ELSE "9"]
Reply(o, x, code) ==
  LET c == ToString(code) IN
  CASE o = "ListGroups" -> [error |-> c, groups |-> << [group |-> "g" \o ToString(x.n)] >>]
    [] o = "DeleteGroups" -> [results |-> LET q == Q(x.of) IN [i \in 1..Len(q) |-> [group |-> q[i], error |-> c]]]
    [] o = "DescribeGroups" -> [groups |-> << [group |-> "g2", error |-> c, members |-> <<>>] >>]
    [] o = "IncrementalAlterConfigs" -> [responses |-> << [name |-> "1", error |-> c] >>]
    [] OTHER -> [topics |-> << [name |-> "n", error |-> c] >>]

Ask(x) ==
  /\ st = "ask" /\ x \in todo /\ fail = "no"
  /\ todo' = todo \ {x}
  /\ LET api == ApiOf(call.op)
         req == [ev |-> "Req", n |-> x.n, api |-> api, ver |-> 0, ok |-> TRUE, lo |-> 0, hi |-> 0, body |-> Body(call.op, call.a, x)] IN
     \/ \E code \in {0, 7} :
          LET b == Reply(call.op, x, code) IN
          /\ Emit(<<req, [ev |-> "Ans", n |-> x.n, api |-> api, ver |-> 0, body |-> b, codes |-> IF code = 0 THEN <<>> ELSE <<code>>]>>)
          /\ got' = Append(got, [n |-> x.n, b |-> b])
          /\ fail' = IF code # 0 THEN "code" ELSE fail
     \/ /\ Emit(<<req, [ev |-> "Lost"]>>)
        /\ got' = got /\ fail' = IF Bug = "swallow" THEN fail ELSE "lost"
  /\ UNCHANGED <<lay, st, call, nc>>

RECURSIVE All(_, _)
All(q, f) == IF q = <<>> THEN <<>> ELSE Head(q).b[f] \o All(Tail(q), f)
Value ==
  CASE call.op = "ListGroups" -> [i \in 1..Len(got) |-> [n |-> ToString(got[i].n), groups |-> got[i].b.groups]]
    [] call.op = "DeleteGroups" -> [results |-> IF got = <<>> THEN <<>> ELSE All(got, "results")]
    [] OTHER -> IF got = <<>> THEN [topics |-> <<>>, groups |-> <<>>, responses |-> <<>>] ELSE got[1].b
Show ==
  /\ st = "ask" /\ (todo = {} \/ fail # "no" \/ (Bug = "early" /\ got # <<>>))
  /\ st' = "idle" /\ call' = None /\ todo' = {} /\ got' = <<>> /\ fail' = "no"
  /\ Emit(<<IF fail # "no" THEN Ret(TRUE, 500, <<>>) ELSE Ret(FALSE, 200, Value)>>)
  /\ UNCHANGED <<lay, nc>>

Next == Move \/ Begin \/ Auth \/ Read \/ (\E x \in todo : Ask(x)) \/ Show \/ UNCHANGED vars

Refused == bad = <<>>
(* nothing is asked of a broker for a call that was not let in or makes no sense *)
Nothing == (st \in {"idle", "auth", "read"}) => todo = {}
=============================================================================
