------------------------------ MODULE GenConn -------------------------------
(* Environments for the broker handle: what the callers do and which faults   *)
(* meet which request.  One script per state.                                 *)
EXTENDS Rand, Json
CONSTANT N
VARIABLES n, script

Apis(sasl) == {"FindCoordinator", "Metadata", "OffsetFetch"}
              \cup (IF Chance(35) THEN {"ApiVersions"} ELSE {})
              \cup (IF sasl THEN {"SaslHandshake", "SaslAuthenticate"} ELSE {})

Ops == {"find", "meta", "off"}

RECURSIVE Program(_)
Program(k) ==
  IF k = 0 THEN <<>>
  ELSE IF Chance(15) THEN Append(Program(k - 1), Pick({"drop", "rst"}))
  ELSE IF Chance(7) THEN Program(k - 1) \o <<"down", Pick(Ops), "up">>
  ELSE Append(Program(k - 1), Pick(Ops))


RECURSIVE Faults(_, _)
Faults(k, sasl) ==
  IF k = 0 THEN <<>>
  ELSE Append(Faults(k - 1, sasl),
        [api |-> Pick(Apis(sasl)), n |-> Pick(1..4),
         act |-> PickQ(<<"late", "stall", "drop", "rst", "cut", "cutstall", "cutrst", "seg", "seg", "seg", "thenclose">>),
         arg |-> Pick({1, 2, 3, 4, 5, 8, 9, 13, -50, -90, -99})])

AuthFault(x) == [api |-> Pick({"SaslHandshake", "SaslAuthenticate"}), n |-> Pick(1..3), act |-> "err", arg |-> 58]

RECURSIVE Programs(_)
Programs(k) == IF k = 0 THEN <<>> ELSE Append(Programs(k - 1), Program(Pick(2..4)))

Make ==
  \E sasl \in {Pick(BOOLEAN)}, callers \in {Programs(Pick(1..4))}, k \in {Pick(0..3)} :
  \E rules \in {Faults(k, sasl)}, ae \in {Chance(25)} :
  \E r2 \in {IF sasl /\ ae THEN Append(rules, AuthFault(0)) ELSE rules} :
     script' = [sasl |-> sasl, callers |-> callers, rules |-> r2, mech |-> PickQ(<<"plain", "plain", "PLAIN">>),
                user |-> PickQ(<<"user-x", "user-x", "", "wide">>), pass |-> PickQ(<<"pass-y", "pass-y", "", "long">>)]

Init == n = 0 /\ script = [sasl |-> FALSE, callers |-> <<<<"find">>>>, rules |-> <<>>, mech |-> "plain", user |-> "user-x", pass |-> "pass-y"]
Next == n < N /\ n' = n + 1 /\ Make
Show == n > 0 => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
