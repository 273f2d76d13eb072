------------------------------ MODULE MCConfig ------------------------------
(* The design of healer's configurations.  Part "cfg": clients are created in *)
(* any order, by decoding over the shared defaults or from the caller's       *)
(* struct; the table of per-request timeouts is a reference to a heap cell,   *)
(* so sharing is visible; then each sends requests and waits in vain.  Part   *)
(* "tls": clients with TLS settings of their own bootstrap, use and reconnect *)
(* to brokers whose identities change.  Every observable step is submitted to *)
(* the specification Config.                                                  *)
EXTENDS Config

CONSTANTS Part, Cls, MaxOps, Bug

VARIABLES s, bad,
          heap,            \* cell -> the timeouts it holds (api -> ms); cell 0: the caller's own
          dflt,            \* the cell of the shared defaults, -1: none yet
          cl,              \* client -> [kind, cfg, cell] as the implementation knows it
          live, was,       \* TLS: <<client, node>> -> how its connection is protected; who had one before
          nops

vars == <<s, bad, heap, dflt, cl, live, was, nops>>

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF KMay(r.s, Head(evs)) THEN [s |-> KDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

-----------------------------------------------------------------------------
(* configurations                                                             *)
None == [k \in {} |-> 0]
Kinds == {"simple", "group", "producer", "brokers"}
OptsFor(kind) ==
  LET t == {"net.timeout.ms" :> x : x \in {400, 900}} IN
  CASE kind = "simple" -> {x @@ y : x \in t, y \in {None, "fetch.max.wait.ms" :> 100, "group.id" :> "g" @@ "auto.commit.interval.ms" :> 0,
                                                   "sasl.mechanism" :> "PLAIN" @@ "sasl.user" :> "u" @@ "sasl.password" :> "p"}}
    [] kind = "group" -> {x @@ y : x \in t, y \in {None, "group.id" :> "g1", "group.id" :> "g2" @@ "session.timeout.ms" :> 800,
                                                  "group.id" :> "g1" @@ "session.timeout.ms" :> 0}}
    [] kind = "producer" -> {x @@ y : x \in t, y \in {None, "acks" :> 1 @@ "client.id" :> "c1", "message.max.count" :> 0, "compress.type" :> "gzip",
                                                     "eachapi" :> << <<0, 700>> >>}}
    [] OTHER -> {x @@ y : x \in t, y \in {None, "eachapi" :> << <<16, 700>> >>}}
Apis(kind) == CASE kind = "simple" -> {"Fetch"} [] kind = "group" -> {"Fetch", "Heartbeat", "JoinGroup"} [] kind = "producer" -> {"Produce"} [] OTHER -> {"ListGroups"}
All == {"Fetch", "Heartbeat", "JoinGroup", "Produce", "ListGroups"}
Conf(kind, form, o) == [kind |-> kind, form |-> form, opts |-> o, garbage |-> FALSE, authed |-> FALSE]

(* the table a client is given                                                *)
Table(k) == [a \in All |-> IF Each(k, a) # {} THEN CHOOSE y \in Each(k, a) : TRUE
                           ELSE IF k.kind \in Consumers /\ a = "Fetch" THEN Eff(k, "net.timeout.ms") + Eff(k, "fetch.max.wait.ms")
                           ELSE Eff(k, "net.timeout.ms")]
Fresh == Cardinality(DOMAIN heap)
Create(c) ==
  /\ c \notin DOMAIN cl
  /\ \E kind \in Kinds, form \in {"map", "struct"} : \E o \in OptsFor(kind) :
       LET k == Conf(kind, form, o)
           seen == IF Bug = "default" /\ form = "map" /\ "fetch.max.wait.ms" \in DOMAIN o THEN [k EXCEPT !.opts = [x \in DOMAIN o \ {"fetch.max.wait.ms"} |-> o[x]]] ELSE k
           ok == Valid(k) \/ Bug = "novalid"
           (* over the shared defaults, a shared cell; the caller's struct, the caller's cell *)
           cell == IF Bug = "alias" /\ form = "map" /\ kind \in Consumers THEN (IF dflt = -1 THEN Fresh ELSE dflt)
                   ELSE IF Bug = "caller" /\ form = "struct" THEN 0 ELSE Fresh IN
       /\ (form = "map" /\ kind = "brokers") => FALSE
       /\ Emit(<<[ev |-> "New", c |-> c, kind |-> kind, form |-> form, opts |-> o, garbage |-> FALSE], [ev |-> "NewRet", c |-> c, ok |-> ok],
                 [ev |-> "Same", c |-> c, same |-> ~(ok /\ cell = 0 /\ heap[0] # Table(seen))]>>)
       /\ cl' = Put(cl, c, [k |-> seen, cell |-> IF ok THEN cell ELSE -1, authed |-> FALSE])
       /\ IF ok THEN heap' = Put(heap, cell, Table(seen)) /\ dflt' = (IF form = "map" /\ Bug = "alias" THEN cell ELSE dflt)
          ELSE UNCHANGED <<heap, dflt>>

(* a request in client c's name                                               *)
ReqEv(c, api, k) ==
  [ev |-> "Req", c |-> c, api |-> api, client |-> IF k.kind \in Consumers \cup Producers THEN Eff(k, "client.id") ELSE "healer",
   group |-> IF k.kind \in Consumers THEN Eff(k, "group.id") ELSE "", session |-> IF k.kind \in Consumers THEN Eff(k, "session.timeout.ms") ELSE 0,
   wait |-> IF k.kind \in Consumers THEN Eff(k, "fetch.max.wait.ms") ELSE 0, min |-> IF k.kind \in Consumers THEN Eff(k, "fetch.min.bytes") ELSE 0,
   max |-> -9, pmax |-> IF k.kind \in Consumers THEN Eff(k, "fetch.max.bytes") ELSE 0,
   acks |-> IF k.kind = "producer" THEN Eff(k, "acks") ELSE 0, tmo |-> IF k.kind = "producer" THEN Eff(k, "request.timeout.ms") ELSE 0,
   codec |-> IF k.kind = "producer" THEN CodecOf(Eff(k, "compress.type")) ELSE 0, cnt |-> 1,
   mech |-> Eff(k, "sasl.mechanism"), auth |-> "|" \o Eff(k, "sasl.user") \o "|" \o Eff(k, "sasl.password"), ts |-> "-1"]
Last == CHOOSE c \in DOMAIN cl : cl[c].cell >= 0 /\ \A d \in DOMAIN cl : cl[d].cell <= cl[c].cell
Running(c) == c \in DOMAIN cl /\ cl[c].cell >= 0
Send(c) ==
  /\ Running(c)
  /\ LET k == IF Bug = "global" THEN [cl[Last].k EXCEPT !.kind = cl[c].k.kind] ELSE cl[c].k
         sasl == Eff(cl[c].k, "sasl.mechanism") # "" /\ ~cl[c].authed /\ Bug # "nosasl" IN
     \E api \in Apis(k.kind), stall \in BOOLEAN :
       /\ Emit((IF sasl THEN <<ReqEv(c, "SaslHandshake", k), ReqEv(c, "SaslAuthenticate", k)>> ELSE <<>>) \o <<ReqEv(c, api, k)>>
               \o (IF stall /\ api # "JoinGroup" THEN <<[ev |-> "GaveUp", c |-> c, api |-> api, ms |-> heap[cl[c].cell][api], lag |-> 0]>> ELSE <<>>))
       /\ cl' = [cl EXCEPT ![c].authed = @ \/ sasl]
  /\ UNCHANGED <<heap, dflt>>

-----------------------------------------------------------------------------
(* TLS                                                                        *)
Nodes == {1, 2}
Idents == {"plain", "good", "mtls", "name", "expired", "otherca"}
TOpt(on, f, ca, skip, sn) == [on |-> on, cert |-> f, key |-> f, ca |-> ca, skip |-> skip, sn |-> sn, sasl |-> FALSE, form |-> "map"]
TOpts == {TOpt(FALSE, "ok", "ok", FALSE, ""), TOpt(TRUE, "ok", "ok", FALSE, ""), TOpt(TRUE, "ok", "ok", TRUE, ""), TOpt(TRUE, "ok", "other", FALSE, ""),
          TOpt(TRUE, "ok", "ok", FALSE, "kafka.test"), TOpt(TRUE, "nofile", "ok", FALSE, ""), TOpt(TRUE, "other", "ok", FALSE, "")}
(* the settings client k really uses                                          *)
Uses(k) == IF Bug = "shared" THEN cl[1].k ELSE IF Bug = "skipall" THEN [cl[k].k EXCEPT !.skip = TRUE]
           ELSE IF Bug = "nohost" THEN [cl[k].k EXCEPT !.sn = ""] ELSE cl[k].k
ConnEv(k, n, what, done, peer) == [ev |-> "Conn", k |-> k, n |-> n, what |-> what, ident |-> s.w[k].ident[n], done |-> done, peer |-> peer]
TReq(k, n, over) == [ev |-> "Req", k |-> k, n |-> n, api |-> "ApiVersions", over |-> over, bad |-> FALSE]
(* opening a connection: its events, and whether it can be used               *)
Open(k, n, again) ==
  LET o == Uses(k)  i == s.w[k].ident[n]
      clear == <<ConnEv(k, n, "clear", FALSE, ""), TReq(k, n, "clear")>> IN
  IF ~o.on \/ (again /\ Bug = "reconnclear") THEN [evs |-> clear, ok |-> i = "plain", how |-> "clear"]
  ELSE IF ~Loads(o) THEN IF Bug = "ignoreload" THEN [evs |-> clear, ok |-> i = "plain", how |-> "clear"] ELSE [evs |-> <<>>, ok |-> FALSE, how |-> "no"]
  ELSE IF ~Speaks(i) THEN IF Bug = "fallback" THEN [evs |-> clear, ok |-> TRUE, how |-> "clear"] ELSE [evs |-> <<ConnEv(k, n, "tls", FALSE, "")>>, ok |-> FALSE, how |-> "no"]
  ELSE IF ~Trusts(o, i) \/ (i = "mtls" /\ (Peer(o) # "client-a" \/ Bug = "nocert")) THEN [evs |-> <<ConnEv(k, n, "tls", FALSE, "")>>, ok |-> FALSE, how |-> "no"]
  ELSE [evs |-> <<ConnEv(k, n, "tls", TRUE, IF Bug = "nocert" THEN "" ELSE Peer(o)), TReq(k, n, "tls")>>, ok |-> TRUE, how |-> "tls"]
Con(k, n) == IF <<k, n>> \in DOMAIN live THEN live[<<k, n>>] ELSE "no"
TBoot(k) ==
  /\ s.w[k].boot = {}
  /\ \E q \in {<<1>>, <<2, 1>>} :
       LET a == Open(k, q[1], FALSE)
           b == IF Len(q) > 1 /\ ~a.ok THEN Open(k, q[2], FALSE) ELSE [evs |-> <<>>, ok |-> a.ok, how |-> "no"] IN
       /\ Emit(<<[ev |-> "Boot", k |-> k, addrs |-> q]>> \o a.evs \o b.evs \o <<[ev |-> "BootRet", k |-> k, ok |-> b.ok]>>)
       /\ live' = IF a.ok THEN Put(live, <<k, q[1]>>, a.how) ELSE IF b.ok THEN Put(live, <<k, q[Len(q)]>>, b.how) ELSE live
       /\ was' = IF b.ok THEN was \cup {k} ELSE was
  /\ UNCHANGED <<heap, dflt, cl>>
TUse(k) ==
  /\ k \in was
  /\ \E n \in Nodes :
       IF Con(k, n) \in {"tls", "clear"}
       THEN /\ Emit(<<TReq(k, n, Con(k, n)), [ev |-> "UseRet", k |-> k, n |-> n, ok |-> TRUE, fresh |-> FALSE]>>) /\ UNCHANGED <<live, was>>
       ELSE IF Con(k, n) = "cut"        \* the error closes the connection, the next use opens one
       THEN /\ Emit(<<[ev |-> "UseRet", k |-> k, n |-> n, ok |-> FALSE, fresh |-> FALSE]>>) /\ live' = Put(live, <<k, n>>, "again") /\ UNCHANGED was
       ELSE LET r == Open(k, n, Con(k, n) = "again") IN
            /\ Emit(r.evs \o <<[ev |-> "UseRet", k |-> k, n |-> n, ok |-> r.ok, fresh |-> FALSE]>>)
            /\ live' = IF r.ok THEN Put(live, <<k, n>>, r.how) ELSE live
            /\ UNCHANGED was
  /\ UNCHANGED <<heap, dflt, cl>>
(* a broker restarts with another identity: its connections are cut           *)
TShift ==
  /\ \E k \in Cls, n \in Nodes, i \in Idents :
       /\ s.w[k].ident[n] # i
       /\ Emit(<<[ev |-> "Ident", k |-> k, n |-> n, m |-> i], [ev |-> "Cut", k |-> k, n |-> n]>>)
       /\ live' = IF Con(k, n) \in {"tls", "clear"} THEN Put(live, <<k, n>>, "cut") ELSE live
  /\ UNCHANGED <<heap, dflt, cl, was>>

-----------------------------------------------------------------------------
Q(n, f) == [i \in 1..n |-> f]
Init == /\ bad = <<>> /\ dflt = -1 /\ heap = (0 :> [a \in All |-> 5000]) /\ live = None /\ was = {} /\ nops = 0
        /\ IF Part = "cfg" THEN cl = None /\ s = KStart([tls |-> FALSE])
           ELSE \E f \in [Cls -> TOpts], i \in Idents :
                  /\ cl = [c \in Cls |-> [k |-> f[c], cell |-> 0, authed |-> FALSE]]
                  /\ s = KStart([tls |-> TRUE, cl |-> [c \in 1..Cardinality(Cls) |-> [o |-> f[c], ct |-> 500, ident |-> <<i, "good">>]]])
Op == /\ nops < MaxOps /\ nops' = nops + 1
      /\ IF Part = "cfg" THEN (\E c \in Cls : Create(c) \/ Send(c)) /\ UNCHANGED <<live, was>>
         ELSE TShift \/ (\E k \in Cls : TBoot(k) \/ TUse(k))
Next == Op \/ UNCHANGED vars

Refused == bad = <<>>
(* no two clients share a table, and the caller's is the caller's             *)
Apart == \A c, d \in DOMAIN cl : (Part = "cfg" /\ cl[c].cell >= 0 /\ cl[d].cell = cl[c].cell) => c = d
(* what travels in the clear was asked to                                     *)
NoClear == Part = "tls" => \A x \in DOMAIN live : live[x] = "clear" => ~s.w[x[1]].o.on
=============================================================================
