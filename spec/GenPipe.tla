------------------------------- MODULE GenPipe ------------------------------
(* Command lines, inputs and logs for the commands that produce and consume.  *)
EXTENDS Rand, Json, FiniteSets
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}
RECURSIVE Rep(_, _)
Rep(m, q) == IF m = 0 THEN <<>> ELSE LET r == Rep(m - 1, q) IN LET x == PickQ(q) IN Append(r, x)

(* --------------------------------------------------------------- producing  *)
LineKinds(x) == PickQ(<< <<"a", "b", "c", "d", "e", "f">>, <<"a", "b", "$empty", "$bin", "$utf", "c">>, <<"a", "  b ", "$long", "$cr", "c d  e", "d ">>, <<"same">> >>)
NLines(x) == PickQ(<<0, 1, 1, 2, 3, 4, 5, 7, 8, 12, 25>>)
Lines(x) == LET k == LineKinds(0)  m == NLines(0) IN
            LET l == Rep(m, k) IN
            IF Chance(8) THEN LET i == Pick(0..Len(l)) IN SubSeq(l, 1, i) \o <<"$huge">> \o SubSeq(l, i + 1, Len(l)) ELSE l
Client(x) == PickQ(<<"", "", "c1", "my-client">>)
BadCfg(x) == PickQ(<<"{\"acks\":", "[1]", "\"x\"", "{acks: 1}", "nonsense", "{\"acks\":\"abc\"}", "{\"message.max.count\":0}", "{\"compress.type\":\"zip\"}">>)
BadMake(cmd) == PickQ(<<"cfg", "cfg", "cfg", "notopic", "nobroker", "flag", IF cmd = "simple-producer" THEN "part" ELSE "notopic", IF cmd = "simple-producer" THEN "unknown" ELSE "cfg">>)
Make(x) ==
  LET cmd == PickQ(<<"simple-producer", "console-producer">>)
      bad == Chance(20)  refuse == Chance(20) IN
  [ op |-> "run", cmd |-> cmd, p |-> Pick(0..2), lines |-> Lines(0), client |-> Client(0), slow |-> PickQ(<<0, 0, 0, 30, 60>>), nonl |-> Chance(20),
    bad |-> IF bad THEN BadMake(cmd) ELSE "", badcfg |-> BadCfg(0),
    cnt |-> PickQ(<<0, 0, 1, 2, 3, 5>>), fl |-> IF refuse THEN 60000 ELSE PickQ(<<0, 20, 100, 60000>>), codec |-> PickQ(<<"", "", "gzip", "snappy", "lz4">>),
    acks |-> PickQ(<<-1, 1, 9>>), refuse |-> IF refuse THEN Pick(1..3) ELSE 0,
    max |-> -1, stop |-> 0, from |-> 0, ps |-> <<>>, fmt |-> "", grow |-> <<>>, group |-> "" ]

(* --------------------------------------------------------------- consuming  *)
Kinds(plain) == IF plain THEN <<"v", "v", "v", "bin", "utf", "long">> ELSE <<"v", "v", "null", "empty", "bin", "utf", "long">>
Batch(kinds) == LET m == PickQ(<<1, 1, 2, 3, 4>>) IN
                LET q == Rep(m, kinds) IN
                [recs |-> q, keys |-> Rep(m, <<"null", "k", "k", "kempty">>), gap |-> PickQ(<<0, 0, 0, 1, 3>>), c |-> PickQ(<<0, 0, 1, 2, 3>>), m |-> PickQ(<<2, 2, 2, 1, 0>>)]
RECURSIVE Batches(_, _)
Batches(m, kinds) == IF m = 0 THEN <<>> ELSE LET r == Batches(m - 1, kinds) IN LET x == Batch(kinds) IN Append(r, x)
Part(kinds) == LET m == PickQ(<<0, 1, 2, 3, 4>>) IN [start |-> PickQ(<<0, 0, 0, 3, 100>>), leader |-> Pick(1..2), batches |-> Batches(m, kinds)]
Grow(np, kinds) == IF Chance(60) THEN LET a == Pick(0..(np - 1)) IN LET b == Pick(0..(np - 1)) IN LET x == Batch(kinds) IN LET y == Batch(kinds) IN
                    PickQ(<< << <<a, x>> >>, << <<a, x>>, <<b, y>> >> >>) ELSE <<>>
BadShow(cmd) == PickQ(<<"cfg", "cfg", "cfg", "notopic", "nobroker", "flag", IF cmd = "group-consumer" THEN "nogroup" ELSE "notopic">>)
BadCCfg(x) == PickQ(<<"{\"net.timeout.ms\":", "[1]", "\"x\"", "{a: 1}", "nonsense", "{\"fetch.max.bytes\":\"abc\"}">>)
Display(cmd, np, kinds, fmt) ==
  [ op |-> "run", cmd |-> cmd, p |-> Pick(0..(np - 1)), lines |-> <<>>, client |-> Client(0), slow |-> 0, nonl |-> FALSE,
    bad |-> IF Chance(12) THEN BadShow(cmd) ELSE "", badcfg |-> BadCCfg(0), cnt |-> 0, fl |-> 0, codec |-> "", acks |-> 9, refuse |-> 0,
    max |-> IF cmd = "group-consumer" THEN PickQ(<<-1, 1, 2, 3, 5>>) ELSE PickQ(<<-1, -1, 0, 1, 2, 3, 5, 20>>),
    stop |-> IF cmd = "simple-consumer" THEN PickQ(<<0, 0, 1, 2, 4, 7, 103>>) ELSE 0,
    from |-> IF cmd = "simple-consumer" THEN PickQ(<<-1, -2, -2, -2, 0, 1, 2, 5>>) ELSE PickQ(<<-2, -2, -1>>),
    ps |-> IF cmd = "console-consumer" THEN PickQ(<< <<>>, <<>>, <<0>>, IF np > 1 THEN <<1, 0>> ELSE <<0>>, IF np > 2 THEN <<2>> ELSE <<0>> >>) ELSE <<>>,
    fmt |-> fmt, grow |-> Grow(np, kinds), group |-> IF cmd = "group-consumer" THEN "g1" ELSE "" ]
ShowScript(parts, cmd, np, kinds, fmt) ==
  LET a == Display(cmd, np, kinds, fmt)  b == Display(cmd, np, kinds, fmt) IN
  [ rules |-> <<>>, p |-> [parts |-> parts, steps |-> IF cmd = "group-consumer" \/ Chance(30) THEN <<a, b>> ELSE <<a>>] ]
RECURSIVE Parts(_, _)
Parts(m, kinds) == IF m = 0 THEN <<>> ELSE LET r == Parts(m - 1, kinds) IN LET x == Part(kinds) IN Append(r, x)

MakeScript ==
  \E a \in One(Make(0)), b \in One(Make(0)) :
    script' = [ rules |-> <<>>, p |-> [parts |-> Parts(3, <<"v">>), steps |-> IF Chance(30) THEN <<a, b>> ELSE <<a>>] ]
Fmt(cmd) == IF cmd = "simple-consumer" THEN PickQ(<<"plain", "plain", "nooff", "json">>) ELSE PickQ(<<"plain", "plain", "json">>)
ConsScript ==
  \E cmd \in One(PickQ(<<"simple-consumer", "simple-consumer", "console-consumer", "group-consumer">>)), np \in One(Pick(1..3)) :
  \E fmt \in One(Fmt(cmd)) :
  LET plain == fmt = "nooff" \/ (cmd = "console-consumer" /\ fmt = "plain") IN
  \E parts \in One(Parts(np, Kinds(plain))) :
    script' = ShowScript(parts, cmd, np, Kinds(plain), fmt)

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ (\E c \in One(Chance(45)) : IF c THEN MakeScript ELSE ConsScript)
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
