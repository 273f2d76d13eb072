----------------------------- MODULE MCRouting ------------------------------
(* The design of healer's producer of a topic: keyed messages go to the       *)
(* partition of their hash, the others to a partition drawn at every refresh; *)
(* a refresh learns the leaders from the metadata and redirects the partition *)
(* producers.  Leaders move at any time; a refresh is not atomic.  Every      *)
(* observable step is submitted to the specification Producer.                *)
EXTENDS Producer

CONSTANTS NP, NN,        \* partitions, nodes
          Keys,          \* hashes used as keys
          MaxAdds, MaxMoves, MaxRefresh,
          Bug

VARIABLES s, bad, lead, meta, known, cur, got, na, nm, nr

vars == <<s, bad, lead, meta, known, cur, got, na, nm, nr>>
Parts == 0..(NP - 1)
Nodes == 1..NN

RECURSIVE Fold(_, _)
Fold(r, evs) ==
  IF evs = <<>> \/ r.bad # <<>> THEN r
  ELSE Fold(IF PMay(r.s, Head(evs)) THEN [s |-> PDo(r.s, Head(evs)), bad |-> <<>>]
            ELSE [s |-> r.s, bad |-> <<Head(evs)>>], Tail(evs))
Emit(evs) == LET r == Fold([s |-> s, bad |-> bad], evs) IN s' = r.s /\ bad' = r.bad

RECURSIVE Begin(_, _)
Begin(r, p) == IF p = NP THEN r
               ELSE Begin(PDo(r, [ev |-> "Leader", p |-> p, n |-> (p % NN) + 1]), p + 1)

Init == /\ lead = [p \in Parts |-> (p % NN) + 1] /\ meta = lead
        /\ s = Begin(PStart([max |-> 1, np |-> NP, only |-> -1, timer |-> FALSE, acks |-> -1, tmo |-> 1, attr |-> 0]), 0)
        /\ bad = <<>>
        /\ known = [p \in {} |-> 0]      \* partitions with a producer of their own -> where it sends
        /\ cur \in [p : Parts] /\ got = "idle" /\ na = 0 /\ nm = 0 /\ nr = 0

Move == /\ nm < MaxMoves /\ nm' = nm + 1
        /\ \E p \in Parts : /\ lead' = [lead EXCEPT ![p] = (@ % NN) + 1]
                            /\ Emit(<<[ev |-> "Trouble"], [ev |-> "Leader", p |-> p, n |-> lead'[p]]>>)
        /\ UNCHANGED <<meta, known, cur, got, na, nr>>

(* a refresh: ask, then redirect                                              *)
Ask == /\ got = "idle" /\ nr < MaxRefresh /\ nr' = nr + 1
       /\ got' = "asked" /\ meta' = lead
       /\ UNCHANGED <<s, bad, lead, known, cur, na, nm>>
Apply == /\ got = "asked" /\ got' = "idle"
         /\ known' = IF Bug = "stale" THEN known ELSE [p \in DOMAIN known |-> meta[p]]
         /\ \E q \in Parts : cur' = [p |-> q]
         /\ IF meta = lead /\ nm > 0 THEN Emit(<<[ev |-> "Refreshed"], [ev |-> "Calm"]>>) ELSE UNCHANGED <<s, bad>>
         /\ UNCHANGED <<lead, meta, na, nm, nr>>

Produce(p, node, d) ==
  [ev |-> "Produce", n |-> node, p |-> p, recs |-> <<d>>, bad |-> <<>>, cnt |-> 1, last |-> 0, base |-> 0,
   deltas |-> <<0>>, attr |-> 0, acks |-> -1, tmo |-> 1, mine |-> TRUE]

Code(p, node) == IF lead[p] = node THEN 0 ELSE 6

AddEv(d, h, keyed) == [ev |-> "Add", c |-> "c", d |-> d, keyed |-> keyed, hh |-> 0, hl |-> h]
AddKeyed(h) ==
  /\ na < MaxAdds /\ na' = na + 1
  /\ LET d    == ToString(na)
         p    == IF Bug = "rehash" /\ nm > 0 THEN (h + 1) % NP ELSE h % NP
         node == IF p \in DOMAIN known THEN known[p] ELSE meta[p]
         ok   == Code(p, node) = 0 IN
     /\ known' = Put(known, p, node)
     /\ Emit(<<AddEv(d, h, TRUE), Produce(p, node, d), [ev |-> "Answer", p |-> p, code |-> Code(p, node)],
               [ev |-> "Ret", c |-> "c", r |-> IF ok \/ Bug = "swallow" THEN "ok" ELSE "err"]>>)
  /\ UNCHANGED <<lead, meta, cur, got, nm, nr>>

AddNull ==
  /\ na < MaxAdds /\ na' = na + 1
  /\ LET d == ToString(na)  p == cur.p  node == meta[p]  ok == Code(p, node) = 0 IN
     Emit(<<AddEv(d, 0, FALSE), Produce(p, node, d), [ev |-> "Answer", p |-> p, code |-> Code(p, node)],
            [ev |-> "Ret", c |-> "c", r |-> IF ok THEN "ok" ELSE "err"]>>)
  /\ UNCHANGED <<lead, meta, known, cur, got, nm, nr>>

Next == Move \/ Ask \/ Apply \/ AddNull \/ (\E h \in Keys : AddKeyed(h)) \/ UNCHANGED vars

Refused == bad = <<>>
(* once refreshed, where the producer sends is where the leaders are          *)
Follows == (got = "idle" /\ meta = lead) => \A p \in DOMAIN known : known[p] = lead[p]
=============================================================================
