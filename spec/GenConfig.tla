------------------------------ MODULE GenConfig -----------------------------
(* Configurations, ways of giving them, and sets of clients that live side by *)
(* side, to try on the real code.                                             *)
EXTENDS Rand, Json, FiniteSets
CONSTANTS N, Focus
VARIABLES n, script

One(x) == {x}
Opt(pc, key, v) == IF Chance(pc) THEN key :> v ELSE [k \in {} |-> 0]
No == [k \in {} |-> 0]

Cid(x) == PickQ(<<"c1", "client-2", "a.b_c-d", "x">>)
Gid(x) == PickQ(<<"g1", "group-2", "g.3">>)
Tmo(x) == PickQ(<<400, 900, 1500>>)
Sess(x) == PickQ(<<800, 1000, 2000, 3000, 6000>>)

Sasl(pc) == IF Chance(pc)
            THEN ("sasl.mechanism" :> "PLAIN") @@ ("sasl.user" :> PickQ(<<"u1", "user">>)) @@ ("sasl.password" :> PickQ(<<"p1", "s3cret pass">>))
            ELSE No
ConsumerOpts(x) ==
     Opt(70, "client.id", Cid(0)) @@ Opt(60, "fetch.max.wait.ms", PickQ(<<50, 100, 300, 800>>))
  @@ Opt(50, "fetch.max.bytes", PickQ(<<4096, 1048576, 33554432>>)) @@ Opt(50, "fetch.min.bytes", PickQ(<<1, 2, 70>>))
  @@ Opt(50, "from.beginning", Chance(60)) @@ Opt(30, "auto.commit", Chance(40)) @@ Opt(60, "auto.commit.interval.ms", PickQ(<<100, 200, 400>>))
  @@ Opt(60, "session.timeout.ms", Sess(0)) @@ Opt(30, "retry.backoff.ms", PickQ(<<150, 300>>))
  @@ Opt(40, "metadata.max.age.ms", PickQ(<<100, 200, 400>>)) @@ ("net.timeout.ms" :> Tmo(0)) @@ Sasl(25)
ProducerOpts(x) ==
     Opt(70, "client.id", Cid(0)) @@ Opt(60, "acks", PickQ(<<1, -1, 0>>)) @@ Opt(60, "compress.type", PickQ(<<"none", "gzip", "snappy", "lz4">>))
  @@ Opt(60, "message.max.count", PickQ(<<1, 3, 10, 100>>)) @@ Opt(60, "flush.interval.ms", PickQ(<<50, 150, 400, 1000>>))
  @@ Opt(60, "request.timeout.ms", PickQ(<<1, 500, 2000, 30000>>)) @@ Opt(40, "metadata.max.age.ms", PickQ(<<100, 200, 400>>))
  @@ ("net.timeout.ms" :> Tmo(0)) @@ Sasl(25)
  @@ Opt(20, "eachapi", << <<0, Tmo(0)>>, <<3, Tmo(0)>> >>)
BrokerOpts(x) == ("net.timeout.ms" :> Tmo(0)) @@ Sasl(25) @@ Opt(50, "eachapi", << <<16, Tmo(0)>>, <<1, 7>> >>)

BadConsumer(x) == PickQ(<< [t |-> FALSE, o |-> "auto.commit.interval.ms" :> 0], [t |-> TRUE, o |-> "net.timeout.ms" :> "abc"], [t |-> TRUE, o |-> "fetch.max.bytes" :> "12x"], [t |-> TRUE, o |-> "auto.commit" :> "abc"], [t |-> TRUE, o |-> "bootstrap.servers" :> "$none"], [t |-> FALSE, o |-> "auto.commit.interval.ms" :> -5] >>)
BadGroup(x) == PickQ(<< [t |-> FALSE, o |-> "group.id" :> ""], [t |-> FALSE, o |-> "group.id" :> ""], [t |-> FALSE, o |-> "offsets.storage" :> 2], [t |-> FALSE, o |-> "session.timeout.ms" :> 0], [t |-> FALSE, o |-> "metadata.max.age.ms" :> 0], [t |-> TRUE, o |-> "session.timeout.ms" :> "abc"] >>)
BadProducer(x) == PickQ(<< [t |-> FALSE, o |-> "message.max.count" :> 0], [t |-> FALSE, o |-> "message.max.count" :> -1], [t |-> FALSE, o |-> "flush.interval.ms" :> 0], [t |-> FALSE, o |-> "compress.type" :> "zstd"], [t |-> FALSE, o |-> "compress.type" :> ""], [t |-> TRUE, o |-> "acks" :> "abc"], [t |-> TRUE, o |-> "bootstrap.servers" :> "$none"], [t |-> FALSE, o |-> "metadata.max.age.ms" :> 0], [t |-> FALSE, o |-> "metadata.max.age.ms" :> -1], [t |-> TRUE, o |-> "flush.interval.ms" :> "12x"] >>)

Form(x) == PickQ(<<"map", "map", "str", "json", "struct", "struct">>)
MapForm(x) == PickQ(<<"map", "str", "json">>)
BadForm(x) == PickQ(<<"int", "list", "nil", "ptr">>)

Kind(x) == PickQ(<<"simple", "simple", "group", "group", "consumer", "producer", "producer", "sproducer", "brokers">>)
Base(kind) == IF kind \in {"simple", "consumer"} THEN ConsumerOpts(0) @@ Opt(50, "group.id", Gid(0))
              ELSE IF kind = "group" THEN ConsumerOpts(0) @@ ("group.id" :> Gid(0))
              ELSE IF kind = "brokers" THEN BrokerOpts(0) ELSE ProducerOpts(0)
Bad(kind) == IF kind = "group" THEN (IF Chance(70) THEN BadGroup(0) ELSE BadConsumer(0))
             ELSE IF kind \in {"producer", "sproducer"} THEN BadProducer(0) ELSE BadConsumer(0)

NewStep(c, kind, form, o) == [op |-> "new", c |-> c, kind |-> kind, form |-> form, opts |-> o, fail |-> 0, bad |-> FALSE]
New(c, kind) ==
  LET o == Base(kind) IN
  IF kind = "brokers" THEN NewStep(c, kind, "struct", o)
  ELSE IF Chance(8) THEN LET k2 == BadForm(0) IN [NewStep(c, kind, k2, o) EXCEPT !.bad = TRUE]
  ELSE IF Chance(15) THEN LET b == Bad(kind) IN LET g == (IF kind = "group" THEN No ELSE "group.id" :> "g9") IN
       LET f == (IF b.t THEN MapForm(0) ELSE Form(0)) IN [NewStep(c, kind, f, b.o @@ (IF kind \in {"simple", "consumer"} THEN "auto.commit" :> TRUE ELSE No) @@ (IF kind \in {"simple", "consumer"} THEN g ELSE No) @@ o) EXCEPT !.bad = TRUE]
  ELSE LET f == Form(0) IN
       LET o2 == (IF f # "struct" /\ kind \in {"simple", "group", "consumer"} /\ Chance(10) THEN ("shortapi" :> 100) @@ o ELSE o) IN
       LET fl == (IF Chance(15) /\ kind = "simple" /\ "group.id" \in DOMAIN o2 THEN 3 ELSE 0) IN
       [NewStep(c, kind, f, o2) EXCEPT !.fail = fl]

Has(o, k) == k \in DOMAIN o
Commits(st) == Has(st.opts, "group.id") /\ Has(st.opts, "auto.commit.interval.ms") /\ (Has(st.opts, "auto.commit") => st.opts["auto.commit"] = TRUE)
               /\ Has(st.opts, "session.timeout.ms")
Apis(st) == IF st.kind = "brokers" THEN <<"ListGroups", "Metadata">>
            ELSE IF st.kind = "sproducer" \/ (st.kind = "producer" /\ ~Has(st.opts, "metadata.max.age.ms")) THEN <<"Produce">>
            ELSE IF st.kind = "producer" THEN <<"Produce", "Metadata">>
            ELSE IF st.kind = "group" /\ Commits(st) THEN <<"Fetch", "Heartbeat", "OffsetCommit">>
            ELSE IF st.kind = "group" /\ Has(st.opts, "session.timeout.ms") THEN <<"Fetch", "Heartbeat">>
            ELSE IF Commits(st) THEN <<"Fetch", "OffsetCommit">>
            ELSE <<"Fetch">>
(* an acks of 0 is never answered                                             *)
CanStall(st) == ~(st.kind \in {"producer", "sproducer"} /\ Has(st.opts, "acks") /\ st.opts["acks"] = 0)
Use(st) ==
  LET k == Pick(1..100) IN
  IF st.bad THEN [op |-> "sleep", ms |-> 1]
  ELSE IF st.kind \in {"producer", "sproducer"} /\ k <= 45
  THEN LET m == PickQ(<<1, 2, 3, 5, 12>>) IN [op |-> "send", c |-> st.c, n |-> m]
  ELSE IF st.kind \in {"producer", "sproducer"} /\ k <= 60 THEN [op |-> "drip", c |-> st.c, ms |-> 600]
  ELSE IF k <= 90 /\ CanStall(st) THEN LET a == PickQ(Apis(st)) IN [op |-> "stall", c |-> st.c, api |-> a]
  ELSE [op |-> "watch", ms |-> PickQ(<<700, 1200>>)]

MakeK ==
  \E k1 \in One(Kind(0)), k2 \in One(Kind(0)), k3 \in One(Kind(0)) :
  \E a \in One(New("a", k1)), b \in One(New("b", k2)), c \in One(New("c", k3)) :
  \E u1 \in One(Use(a)), u2 \in One(Use(b)), u3 \in One(Use(a)), u4 \in One(Use(c)), w \in One(PickQ(<<700, 1100>>)), k \in One(Pick(1..6)) :
    script' = [ rules |-> <<>>,
                p |-> [ steps |->
                  CASE k <= 2 -> <<a, b, u1, u2, [op |-> "watch", ms |-> w]>>
                    [] k = 3 -> <<a, u1, b, u3, u2>>
                    [] k = 4 -> <<a, b, c, u3, u2, u4>>
                    [] k = 5 -> <<a, b, [op |-> "close", c |-> "b"], u1, [op |-> "watch", ms |-> w]>>
                    [] OTHER -> <<a, b, c, [op |-> "watch", ms |-> w], u1>>] ]

-----------------------------------------------------------------------------
(* K02                                                                        *)
File(x) == PickQ(<<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "unset", "nofile", "garbage">>)
O(x) == LET both == Chance(15) IN
        [ on |-> Chance(88), cert |-> IF both THEN "other" ELSE File(0), key |-> IF both THEN "other" ELSE IF Chance(5) THEN "other" ELSE File(0),
          ca |-> IF Chance(12) THEN "other" ELSE File(0), skip |-> Chance(15), sn |-> PickQ(<<"", "", "", "", "kafka.test", "kafka.test", "other.test", "nosuch.test">>),
          sasl |-> Chance(30), form |-> IF Chance(3) THEN "nilcfg" ELSE PickQ(<<"map", "struct">>) ]
Ident(o) == IF Chance(12) THEN "plain"
            ELSE IF ~o.on /\ Chance(70) THEN "plain"
            ELSE IF o.sn = "kafka.test" THEN PickQ(<<"both", "both", "name", "name", "good", "host2", "expired", "otherca">>)
            ELSE IF o.sn = "other.test" THEN PickQ(<<"host2", "host2", "both", "good">>)
            ELSE PickQ(<<"good", "good", "good", "good", "both", "mtls", "mtls", "name", "host2", "expired", "future", "otherca", "otherca", "self", "mute">>)
TKind(x) == PickQ(<<"brokers", "brokers", "brokers", "brokers", "producer", "sproducer", "simple", "group", "consumer">>)
TStep(k, o, nn) == LET r == Pick(1..10) IN
  IF r <= 3 THEN LET i == Ident(o) IN [op |-> "ident", k |-> k, n |-> Pick(1..nn), m |-> i, rst |-> Chance(30)]
  ELSE [op |-> "use", k |-> k, n |-> Pick(1..nn), fresh |-> Chance(20)]
RECURSIVE TSteps(_, _, _, _)
TSteps(m, k, o, nn) == IF m = 0 THEN <<>> ELSE LET r == TSteps(m - 1, k, o, nn) IN LET x == TStep(k, o, nn) IN r \o <<x>>
RECURSIVE Idents(_, _)
Idents(k, o) == IF k = 0 THEN <<>> ELSE LET r == Idents(k - 1, o) IN LET x == Ident(o) IN r \o <<x>>
NN(kind) == IF kind = "brokers" THEN PickQ(<<1, 2, 2, 3>>) ELSE 1
Boot(k, nn) == [op |-> "boot", k |-> k, addrs |-> PickQ(<< <<1>>, IF nn > 1 THEN <<1, 2>> ELSE <<1>>, IF nn > 1 THEN <<2, 1>> ELSE <<1>> >>)]
(* another client's settings: often nearly the same                           *)
Near(o) == LET r == Pick(1..6) IN
           IF r = 1 THEN [o EXCEPT !.skip = ~@] ELSE IF r = 2 THEN [o EXCEPT !.ca = IF @ = "ok" THEN "other" ELSE "ok"]
           ELSE IF r = 3 THEN [o EXCEPT !.sn = IF @ = "" THEN "kafka.test" ELSE ""] ELSE IF r = 4 THEN [o EXCEPT !.on = ~@]
           ELSE IF r = 5 THEN [o EXCEPT !.cert = "other", !.key = "other"] ELSE O(0)
Weave(p, q) == PickQ(<< p \o q, q \o p, SubSeq(p, 1, 1) \o q \o SubSeq(p, 2, Len(p)), SubSeq(p, 1, 2) \o q \o SubSeq(p, 3, Len(p)) >>)
MakeT ==
  \E o1 \in One(O(0)), k1 \in One(TKind(0)), k2 \in One(TKind(0)), two \in One(Chance(45)), ct \in One(PickQ(<<500, 1000>>)) :
  \E o2 \in One(Near(o1)), n1 \in One(NN(k1)), n2 \in One(NN(k2)) :
  \E i1 \in One(Idents(n1, o1)), i2 \in One(Idents(n2, o2)) :
  \E i3 \in One(IF Chance(50) /\ n1 = n2 THEN i1 ELSE i2), b1 \in One(Boot(1, n1)), b2 \in One(Boot(2, n2)),
     s1 \in One(TSteps(IF k1 = "brokers" THEN Pick(2..5) ELSE Pick(1..2), 1, o1, n1)),
     s2 \in One(TSteps(IF k2 = "brokers" THEN Pick(1..4) ELSE Pick(0..2), 2, o2, n2)) :
  \E w \in One(Weave(<<b1>> \o s1, <<b2>> \o s2)) :
    LET c1 == [nodes |-> n1, kind |-> k1, o |-> o1, ident |-> i1, ct |-> ct]
        c2 == [nodes |-> n2, kind |-> k2, o |-> o2, ident |-> i3, ct |-> 1500 - ct] IN
    script' = [ rules |-> <<>>,
                p |-> IF two THEN [cl |-> <<c1, c2>>, steps |-> w \o <<[op |-> "close", k |-> 1], [op |-> "close", k |-> 2]>>]
                      ELSE [cl |-> <<c1>>, steps |-> <<b1>> \o s1 \o <<[op |-> "close", k |-> 1]>>] ]

Init == n = 0 /\ script = [rules |-> <<>>]
Next == n < N /\ n' = n + 1 /\ (IF Focus = "K02" THEN MakeT ELSE MakeK)
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
