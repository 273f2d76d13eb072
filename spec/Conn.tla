-------------------------------- MODULE Conn --------------------------------
(* One broker handle of healer, as seen from both ends of the wire: calls and *)
(* their results on the client side, connections, requests and responses on   *)
(* the broker side, faults of the environment.                                *)
(*                                                                            *)
(* The state is a record, an event is a record with a field ev, and           *)
(*    CMay(s, e)  says whether the specification allows e in s                *)
(*    CDo(s, e)   is the state after e.                                       *)
(* Prop selects whose property's conditions are enforced ("ALL" in the        *)
(* exhaustive model), so that a deviation is charged to the property it       *)
(* breaks.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Prop

G(p, c) == (Prop = p \/ Prop = "ALL") => c

(* Phases of a connection.  ver: nothing but ApiVersions may be sent; hs: the *)
(* SASL handshake is due; auth: the credentials are due; ready; bad: failed.  *)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Empty == [x \in {} |-> 0]

CStart(cfg) ==
  [ sasl    |-> cfg.sasl,
    phase   |-> Empty,      \* connection -> phase
    pending |-> {},         \* calls in progress
    asked   |-> Empty,      \* call -> connection its request arrived on
    served  |-> {},         \* calls whose complete answer was sent
    started |-> {},
    returned|-> {},
    excused |-> {},         \* calls that overlapped an outage
    faults  |-> 0,
    fails   |-> 0,
    down    |-> FALSE,
    healthy |-> FALSE,
    okAfter |-> 0 ]

Handshake == {"ApiVersions", "SaslHandshake", "SaslAuthenticate"}

CMay(s, e) ==
  CASE e.ev = "Call"   -> e.k \notin s.started
    [] e.ev = "Open"   -> e.c \notin DOMAIN s.phase
    [] e.ev = "Close"  -> TRUE
    [] e.ev = "Req"    ->
         /\ G("B02", LET ph == Get(s.phase, e.c, "bad") IN
               CASE e.api = "ApiVersions"      -> ph = "ver"
                 [] e.api = "SaslHandshake"    -> ph = "hs" /\ e.cred
                 [] e.api = "SaslAuthenticate" -> ph = "auth" /\ e.cred
                 [] OTHER                      -> ph = "ready")
         /\ G("B01", e.api \notin Handshake => e.k \in s.started)
         /\ G("B03", e.dec)
    [] e.ev = "Resp"   -> TRUE
    [] e.ev = "Fault"  -> TRUE
    [] e.ev = "Down"   -> TRUE
    [] e.ev = "Up"     -> TRUE
    [] e.ev = "RetOk"  ->
         /\ e.k \in s.pending
         /\ G("B01", /\ e.v = e.k
                     /\ e.new \/ e.k \in s.served)
         /\ G("B02", IF e.new THEN \E c \in DOMAIN s.phase : s.phase[c] = "ready"
                     ELSE /\ e.k \in DOMAIN s.asked
                          /\ s.phase[s.asked[e.k]] = "ready")
    [] e.ev = "RetErr" ->
         /\ e.k \in s.pending
         /\ G("B04", e.k \in s.excused \/ s.fails < s.faults)
    [] e.ev = "RetCode" -> e.k \in s.pending
    [] e.ev = "Healthy" -> s.pending = {}
    [] e.ev = "End"     -> /\ s.pending = {}
                           /\ (Prop \in {"B04", "B02", "ALL"} => s.okAfter >= 2)
    [] OTHER -> FALSE        \* Hang, Crash, NoHandle

(* The phase of a connection after the broker's answer.                       *)
NextPhase(s, e) ==
  LET ph == Get(s.phase, e.c, "bad") IN
  IF ~e.full THEN (IF e.api \in Handshake THEN "bad" ELSE ph)
  ELSE CASE e.api = "ApiVersions" /\ ph = "ver" ->
              (IF e.code # 0 THEN "bad" ELSE IF s.sasl THEN "hs" ELSE "ready")
         [] e.api = "SaslHandshake" /\ ph = "hs" ->
              (IF e.code # 0 THEN "bad" ELSE "auth")
         [] e.api = "SaslAuthenticate" /\ ph = "auth" ->
              (IF e.code # 0 THEN "bad" ELSE "ready")
         [] OTHER -> ph

CDo(s, e) ==
  CASE e.ev = "Call" ->
         [s EXCEPT !.pending = @ \cup {e.k}, !.started = @ \cup {e.k},
                   !.excused = IF s.down THEN @ \cup {e.k} ELSE @]
    [] e.ev = "Open" -> [s EXCEPT !.phase = Put(@, e.c, "ver")]
    [] e.ev = "Req" /\ e.api \notin Handshake ->
         [s EXCEPT !.asked = Put(@, e.k, e.c)]
    [] e.ev = "Resp" ->
         [s EXCEPT !.phase = Put(@, e.c, NextPhase(s, e)),
                   !.served = IF e.full /\ e.k # 0 THEN @ \cup {e.k} ELSE @]
    [] e.ev = "Fault" -> [s EXCEPT !.faults = @ + 1]
    [] e.ev = "Down"  -> [s EXCEPT !.down = TRUE, !.excused = @ \cup s.pending,
                                   !.faults = @ + 1]
    [] e.ev = "Up"    -> [s EXCEPT !.down = FALSE]
    [] e.ev = "RetOk" ->
         [s EXCEPT !.pending = @ \ {e.k}, !.returned = @ \cup {e.k},
                   !.okAfter = IF s.healthy THEN @ + 1 ELSE @]
    [] e.ev = "RetErr" ->
         [s EXCEPT !.pending = @ \ {e.k},
                   !.fails = IF e.k \in s.excused THEN @ ELSE @ + 1]
    [] e.ev = "RetCode" -> [s EXCEPT !.pending = @ \ {e.k}]
    [] e.ev = "Healthy" -> [s EXCEPT !.healthy = TRUE]
    [] OTHER -> s
=============================================================================
