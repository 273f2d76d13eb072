-------------------------------- MODULE Rand --------------------------------
(* Random choices for the script generators; TLC's -seed makes them           *)
(* repeatable.  (TLC evaluates a definition without parameters only once: every *)
(* random definition has a parameter.)                                        *)
EXTENDS Integers, Sequences, TLC
Pick(S) == RandomElement(S)
PickQ(q) == q[RandomElement(1..Len(q))]       \* by weight: q may repeat itself
Chance(p) == RandomElement(1..100) <= p
RECURSIVE PickSeq(_, _)
PickSeq(S, n) == IF n <= 0 THEN <<>> ELSE Append(PickSeq(S, n - 1), RandomElement(S))
=============================================================================
