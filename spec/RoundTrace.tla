----------------------------- MODULE RoundTrace -----------------------------
(* Recorded deployments against the ledger. *)
EXTENDS Round, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, st, bad
vars == <<n, st, bad>>
V(b, p, c) == IF b THEN {<<p, c>>} ELSE {}
Empty == [l |-> NewLedger, zero |-> << >>, calm |-> FALSE, scn |-> "", skip |-> TRUE]
Judge(x, r) ==
    CASE r.e = "out" /\ r.tally ->
            V(~Ready(x.l), "C02", "tally-of-an-incomplete-round")
            \cup V(~r.shape, "C01", "tally-of-other-counters")
            \cup (IF Ready(x.l) /\ r.shape THEN V(r.vals # Total(x.l, x.zero), "C01", "tally-is-not-the-counts-and-noise") ELSE {})
            \cup V(r.zero # 0, "C01", "zero-count-is-not-zero")
      [] r.e = "out" -> V(x.calm, "C01", "no-tally-of-a-complete-round")
      [] r.e = "gone" -> {<<"C12", "tally-server-gone">>}
      [] r.e = "end" -> V(x.calm /\ r.outs = 0, "C01", "no-tally-of-a-complete-round")
      [] OTHER -> {}
Step(l, r) ==
    CASE r.e = "ask" -> Asks(l, r.d)
      [] r.e = "join" -> Joins(l, r.d, r.noise)
      [] r.e = "event" -> Sees(l, r.d, r.inc)
      [] r.e = "give" -> IF r.n THEN Gives(l, r.d) ELSE Forgets(l, r.d)
      [] r.e = "drop" -> Forgets(l, r.d)
      [] r.e = "out" -> Ends(l)
      [] OTHER -> l
Check(x, r) ==
    CASE r.e = "reset" -> [x |-> [Empty EXCEPT !.zero = r.zero, !.calm = r.calm, !.scn = r.scn, !.skip = FALSE], v |-> {}]
      [] x.skip -> [x |-> x, v |-> {}]
      [] OTHER -> [x |-> [x EXCEPT !.l = Step(@, r)], v |-> Judge(x, r)]

Init == n = 1 /\ st = Empty /\ bad = 0
Next == /\ n <= Len(Trace)
        /\ LET r == Check(st, Trace[n]) IN
           /\ st' = IF r.v = {} THEN r.x ELSE [r.x EXCEPT !.skip = TRUE]
           /\ \A b \in r.v : PrintT("BAD|" \o b[1] \o "|" \o st'.scn \o "|" \o ToString(n) \o "|" \o b[2])
           /\ bad' = bad + Cardinality(r.v)
        /\ n' = n + 1
        /\ (n = Len(Trace)) => PrintT("DONE|" \o ToString(n))
Spec == Init /\ [][Next]_vars
=============================================================================
