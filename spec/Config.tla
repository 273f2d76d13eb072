------------------------------- MODULE Config -------------------------------
(* What a configuration means: every client does what its own configuration   *)
(* says (K01), and TLS is on where it is asked for (K02).                      *)
(*                                                                            *)
(*   KMay(s, e)   the specification allows event e in state s                 *)
(*   KDo(s, e)    the state after e                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prop
G(p, c) == (Prop = p \/ Prop = "ALL") => c
Put(f, k, v) == (k :> v) @@ f
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* K01                                                                        *)

Consumers == {"simple", "group", "consumer"}
Producers == {"producer", "sproducer"}

(* documented defaults                                                        *)
ConsumerDefault ==
  ("client.id" :> "healer") @@ ("group.id" :> "") @@ ("session.timeout.ms" :> 30000) @@ ("fetch.max.wait.ms" :> 500)
  @@ ("fetch.max.bytes" :> 10485760) @@ ("fetch.min.bytes" :> 1) @@ ("from.beginning" :> FALSE) @@ ("auto.commit" :> TRUE)
  @@ ("auto.commit.interval.ms" :> 5000) @@ ("offsets.storage" :> 1) @@ ("retry.backoff.ms" :> 100)
  @@ ("metadata.max.age.ms" :> 300000) @@ ("net.timeout.ms" :> 30000) @@ ("net.connect.timeout.ms" :> 30000)
  @@ ("sasl.mechanism" :> "") @@ ("sasl.user" :> "") @@ ("sasl.password" :> "")
ProducerDefault ==
  ("client.id" :> "healer") @@ ("acks" :> -1) @@ ("compress.type" :> "none") @@ ("message.max.count" :> 1024)
  @@ ("flush.interval.ms" :> 200) @@ ("request.timeout.ms" :> 1500) @@ ("metadata.max.age.ms" :> 300000)
  @@ ("net.timeout.ms" :> 30000) @@ ("net.connect.timeout.ms" :> 30000)
  @@ ("sasl.mechanism" :> "") @@ ("sasl.user" :> "") @@ ("sasl.password" :> "")
BrokerDefault ==
  ("net.timeout.ms" :> 30000) @@ ("net.connect.timeout.ms" :> 10000)
  @@ ("sasl.mechanism" :> "") @@ ("sasl.user" :> "") @@ ("sasl.password" :> "")
Default(kind) == IF kind \in Consumers THEN ConsumerDefault ELSE IF kind \in Producers THEN ProducerDefault ELSE BrokerDefault

(* the value in effect                                                        *)
Eff(k, key) == IF key \in DOMAIN k.opts THEN k.opts[key] ELSE Default(k.kind)[key]
Unset(k, key) == key \in DOMAIN k.opts /\ k.opts[key] = "$none"
Nonpos(k, key) == Eff(k, key) <= 0
(* a configuration a client can work with                                     *)
Valid(k) ==
  /\ k.form \in {"map", "str", "json", "struct"}
  /\ ~Unset(k, "bootstrap.servers")
  /\ ~k.garbage        \* a value of the wrong type
  /\ CASE k.kind = "group" -> Eff(k, "group.id") # "" /\ Eff(k, "offsets.storage") \in {0, 1}
                              /\ ~Nonpos(k, "session.timeout.ms") /\ ~Nonpos(k, "metadata.max.age.ms")
       [] k.kind \in Producers -> /\ ~Nonpos(k, "message.max.count") /\ ~Nonpos(k, "flush.interval.ms")
                                  /\ Eff(k, "compress.type") \in {"none", "gzip", "snappy", "lz4"}
       [] OTHER -> TRUE
  /\ k.kind = "producer" => ~Nonpos(k, "metadata.max.age.ms")
  /\ (k.kind \in Consumers /\ Eff(k, "group.id") # "" /\ Eff(k, "auto.commit")) => ~Nonpos(k, "auto.commit.interval.ms")

CodecOf(c) == CASE c = "none" -> 0 [] c = "gzip" -> 1 [] c = "snappy" -> 2 [] c = "lz4" -> 3 [] OTHER -> -1

Grouped == {"JoinGroup", "SyncGroup", "Heartbeat", "LeaveGroup", "OffsetCommit", "OffsetFetch", "FindCoordinator"}
Own == Grouped \cup {"Fetch", "ListOffsets", "Produce"}         \* sent in the client's own name

ReqOK(k, e) ==
  /\ (e.api \in Own /\ k.kind # "brokers") => e.client = Eff(k, "client.id")
  /\ e.api \in Grouped => (k.kind \in Consumers /\ Eff(k, "group.id") # "" /\ e.group = Eff(k, "group.id"))
  /\ e.api = "JoinGroup" => e.session = Eff(k, "session.timeout.ms")
  /\ e.api = "OffsetCommit" => Eff(k, "auto.commit")
  /\ e.api = "Fetch" => /\ e.wait = Eff(k, "fetch.max.wait.ms") /\ e.min = Eff(k, "fetch.min.bytes")
                        /\ e.pmax = Eff(k, "fetch.max.bytes") /\ e.max \in {-9, Eff(k, "fetch.max.bytes")}
  /\ (e.api = "ListOffsets" /\ k.kind \in {"group", "consumer"}) => e.ts = IF Eff(k, "from.beginning") THEN "-2" ELSE "-1"
  /\ e.api = "Produce" => /\ e.acks = Eff(k, "acks") /\ e.tmo = Eff(k, "request.timeout.ms")
                          /\ e.codec = CodecOf(Eff(k, "compress.type")) /\ e.cnt <= Eff(k, "message.max.count")
  /\ e.api \in {"SaslHandshake", "SaslAuthenticate"} => Eff(k, "sasl.mechanism") # ""
  /\ e.api = "SaslHandshake" => e.mech = Eff(k, "sasl.mechanism")
  /\ e.api = "SaslAuthenticate" => e.auth = "|" \o Eff(k, "sasl.user") \o "|" \o Eff(k, "sasl.password")
  /\ (e.api \notin {"ApiVersions", "SaslHandshake", "SaslAuthenticate"} /\ Eff(k, "sasl.mechanism") # "") => k.authed

(* how long an answer is waited for: at least, at most                        *)
ApiNo(a) == CASE a = "Produce" -> 0 [] a = "Fetch" -> 1 [] a = "Metadata" -> 3 [] a = "OffsetCommit" -> 8 [] a = "Heartbeat" -> 12
              [] a = "ListGroups" -> 16 [] OTHER -> -1
Each(k, a) == IF "eachapi" \notin DOMAIN k.opts \/ k.kind \in Consumers THEN {}
              ELSE {k.opts["eachapi"][i][2] : i \in {j \in 1..Len(k.opts["eachapi"]) : k.opts["eachapi"][j][1] = ApiNo(a)}}
Wait(k, a) ==
  LET t == Eff(k, "net.timeout.ms") IN
  IF Each(k, a) # {} THEN LET x == CHOOSE y \in Each(k, a) : TRUE IN <<x, x>>
  ELSE IF k.kind \in Consumers /\ a = "Fetch" THEN <<t + Eff(k, "fetch.max.wait.ms"), t + Eff(k, "fetch.max.wait.ms")>>
  ELSE IF k.kind \in Consumers /\ a = "OffsetCommit"
       THEN LET h == Eff(k, "session.timeout.ms") \div 2 IN <<Min2(t, h), Max2(t, h)>>
  ELSE <<t, t>>
Near(ms, lo, hi, lag) == ms >= lo - 60 - lag /\ ms <= hi + 500 + lag

(* n events in ms, one every i: not far from ms / i                           *)
(* (r requests for each)                                                      *)
Paced(n, ms, i, lag, r) == /\ n <= r * (((ms + lag) \div i) + 2)
                           /\ n >= ((ms - Min2(ms, lag + 100)) \div i) - 2

WatchOK(k, e) ==
  /\ (k.kind = "group") => e.hb * Eff(k, "session.timeout.ms") >= e.ms - Eff(k, "session.timeout.ms") - e.lag - 200
  /\ k.kind \in {"producer", "group"} => Paced(e.meta, e.ms, Eff(k, "metadata.max.age.ms"), e.lag, 4)
  /\ (k.kind \in Consumers /\ Eff(k, "group.id") # "" /\ Eff(k, "auto.commit")) =>
        Paced(e.commit, e.ms, Max2(Eff(k, "auto.commit.interval.ms"), 50), e.lag, 1)

(* messages one by one: a request whenever the flush interval is over, the    *)
(* count is reached, or the metadata is read anew                             *)
DripOK(k, e) ==
  LET i == Eff(k, "flush.interval.ms") IN
  /\ e.reqs <= ((e.ms + e.lag) \div i) + 2 + (e.n \div Eff(k, "message.max.count"))
                 + (IF k.kind = "producer" THEN ((e.ms + e.lag) \div Eff(k, "metadata.max.age.ms")) + 1 ELSE 0)
  /\ e.n < Eff(k, "message.max.count") => e.reqs >= ((e.ms - Min2(e.ms, 3 * e.lag + 100)) \div i) - 2

KClient(e) == [kind |-> e.kind, form |-> e.form, opts |-> e.opts, garbage |-> e.garbage, authed |-> FALSE]

-----------------------------------------------------------------------------
(* K02.  o: the client's TLS settings, ident: what a broker shows             *)

(* files that can be used; a key that is not the certificate's is of no use   *)
Loads(o) == o.cert = o.key /\ o.cert \in {"ok", "other"} /\ o.ca \in {"ok", "other", "garbage"} /\ o.form # "nilcfg"
Signer(i) == IF i \in {"good", "mtls", "name", "both", "host2", "expired", "future"} THEN "ok" ELSE IF i = "otherca" THEN "other" ELSE "none"
Named(o, i) == IF o.sn = "" THEN i \in {"good", "mtls", "both", "expired", "future", "otherca", "self"}
               ELSE IF o.sn = "kafka.test" THEN i \in {"name", "both"} ELSE IF o.sn = "other.test" THEN i = "host2" ELSE FALSE
Trusts(o, i) == o.skip \/ (Signer(i) = o.ca /\ Named(o, i) /\ i \notin {"expired", "future"})
Speaks(i) == i \notin {"plain", "mute"}
Peer(o) == IF o.cert = "other" THEN "client-b" ELSE "client-a"
(* a connection to a broker that shows i can be used                          *)
Works(o, i) == IF o.on THEN Loads(o) /\ Speaks(i) /\ Trusts(o, i) /\ (i = "mtls" => o.cert = "ok") ELSE i = "plain"

TNodes(s) == DOMAIN s.ident
SetOf(q) == {q[i] : i \in 1..Len(q)}
TMay(s, e) ==
  LET o == s.o IN
  CASE e.ev = "Conn" ->
         G("K02", /\ e.what = (IF o.on THEN "tls" ELSE "clear")
                  /\ o.on => Loads(o)
                  /\ e.done => (Trusts(o, e.ident) /\ e.peer = Peer(o)))
    [] e.ev = "Req" -> G("K02", (e.over = (IF o.on THEN "tls" ELSE "clear")) /\ ~e.bad)
    [] e.ev = "BootRet" -> G("K02", IF e.ok THEN \E n \in s.boot : Works(o, s.ident[n]) ELSE \A n \in s.boot : ~Works(o, s.ident[n]))
    [] e.ev = "UseRet" -> G("K02", IF e.ok THEN Works(o, s.ident[e.n])
                                   ELSE ~Works(o, s.ident[e.n]) \/ (e.n \in s.stale /\ ~e.fresh))
    [] e.ev = "GaveUp" -> G("K02", o.on => Near(e.ms, s.ct, s.ct, e.lag))
    [] e.ev = "Hang" -> ~(Prop \in {"K02", "ALL"})
    [] e.ev = "Crash" -> ~(Prop \in {"K02", "ALL"})
    [] OTHER -> TRUE
TDo(s, e) ==
  CASE e.ev = "Boot" -> [s EXCEPT !.boot = SetOf(e.addrs)]
    [] e.ev = "Ident" -> [s EXCEPT !.ident[e.n] = e.m]
    [] e.ev = "Cut" -> [s EXCEPT !.stale = @ \cup {e.n}]
    [] e.ev = "UseRet" -> IF e.fresh THEN s ELSE [s EXCEPT !.stale = @ \ {e.n}]
    [] OTHER -> s
TStart(cfg) == [o |-> cfg.o, ct |-> cfg.ct, ident |-> [n \in 1..Len(cfg.ident) |-> cfg.ident[n]], boot |-> {}, stale |-> {}]

-----------------------------------------------------------------------------
KStart(cfg) == IF cfg.tls THEN [w |-> [k \in 1..Len(cfg.cl) |-> TStart(cfg.cl[k])]] ELSE [cl |-> [c \in {} |-> 0]]

CMay(s, e) ==
  CASE e.ev = "NewRet" -> G("K01", e.ok = Valid(s.cl[e.c]))
    [] e.ev = "Same" -> G("K01", e.same)
    [] e.ev = "Req" -> G("K01", ReqOK(s.cl[e.c], e))
    [] e.ev = "GaveUp" -> LET w == Wait(s.cl[e.c], e.api) IN G("K01", Near(e.ms, w[1], w[2], e.lag))
    [] e.ev = "Retry" -> G("K01", Near(e.ms, Eff(s.cl[e.c], "retry.backoff.ms") + 50, Eff(s.cl[e.c], "retry.backoff.ms"), e.lag))
    [] e.ev = "Sent" -> G("K01", e.got = e.n /\ e.ms <= Eff(s.cl[e.c], "flush.interval.ms") + 400 + e.lag)
    [] e.ev = "Drip" -> G("K01", DripOK(s.cl[e.c], e))
    [] e.ev = "Watch" -> G("K01", WatchOK(s.cl[e.c], e))
    [] e.ev = "NoStall" -> ~(Prop \in {"K01", "ALL"})
    [] e.ev = "Hang" -> FALSE
    [] e.ev = "Crash" -> FALSE
    [] OTHER -> TRUE

CDo(s, e) ==
  CASE e.ev = "New" -> [s EXCEPT !.cl = Put(@, e.c, KClient(e))]
    [] e.ev = "Req" /\ e.api = "SaslAuthenticate" -> [s EXCEPT !.cl[e.c].authed = TRUE]
    [] OTHER -> s

(* a client with TLS settings is judged by its own alone                      *)
KMay(s, e) == IF "w" \in DOMAIN s THEN (IF "k" \in DOMAIN e THEN TMay(s.w[e.k], e) ELSE TMay(s.w[1], e)) ELSE CMay(s, e)
KDo(s, e) == IF "w" \in DOMAIN s THEN (IF "k" \in DOMAIN e THEN [s EXCEPT !.w[e.k] = TDo(@, e)] ELSE s) ELSE CDo(s, e)
=============================================================================
