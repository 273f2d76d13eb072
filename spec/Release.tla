------------------------------- MODULE Release -------------------------------
(* What is closed is released.  Handles (clients, producers, consumers) are   *)
(* made, used and closed in any order, and every time none is left nothing is *)
(* held: neither a connection that was used, nor one that was replaced, lost  *)
(* by the broker, or opened for a handle that could not be made.  What was    *)
(* under way comes to an end, and after that nobody connects any more.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Prop

G(p, c) == (Prop = p \/ Prop = "ALL") => c

RStart(cfg) == [live |-> {}, making |-> {}]

None(s) == s.live = {} /\ s.making = {}

RMay(s, e) ==
  CASE e.ev = "Rest"  -> G("B05", None(s) => e.held = 0)
    [] e.ev = "Still" -> G("B05", None(s) => e.held = 0 /\ e.calm)
    [] e.ev = "Shut"  -> e.h \in s.live
    [] e.ev = "Made"  -> e.h \in s.making
    [] OTHER -> TRUE

RDo(s, e) ==
  CASE e.ev = "Make" -> [s EXCEPT !.making = @ \union {e.h}]
    [] e.ev = "Made" -> [s EXCEPT !.making = @ \ {e.h}, !.live = IF e.ok THEN @ \union {e.h} ELSE @]
    [] e.ev = "Shut" -> [s EXCEPT !.live = @ \ {e.h}]
    [] OTHER -> s
=============================================================================
