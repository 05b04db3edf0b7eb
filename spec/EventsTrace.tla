---------------------------- MODULE EventsTrace ----------------------------
(* Recorded rounds of a data collector against the counts of Events. *)
EXTENDS Events, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, st, bad
vars == <<n, st, bad>>
B(b, p, c) == IF b THEN {<<p, c>>} ELSE {}
Empty == [s |-> NewRound(<< >>, 0, 1), L |-> << >>, cs |-> << >>, mode |-> "", scn |-> "", skip |-> TRUE]
Start(r) == NewRound([c \in {r.c[i].n : i \in 1..Len(r.c)} |->
                        LET k == CHOOSE i \in 1..Len(r.c) : r.c[i].n = c IN
                        [m \in 1..Len(r.c[k].b) |-> <<r.c[k].b[m][1], r.c[k].b[m][2], 0>>]], r.t, r.period)
Wanted(s, c) == [m \in 1..Len(s.tot[c]) |-> s.tot[c][m][3]]
Check(x, r) ==
    CASE r.e = "reset" -> [x |-> [Empty EXCEPT !.L = r.L, !.mode = r.mode, !.scn = r.scn, !.skip = FALSE], v |-> {}]
      [] x.skip -> [x |-> x, v |-> {}]
      [] r.e = "round" -> [x |-> [x EXCEPT !.s = Start(r), !.cs = r.c], v |-> B(~r.ok, "C04", "round-refused")]
      [] r.e = "ev" -> [x |-> [x EXCEPT !.s = Event(Pass(@, r.t), r.n, r.i, x.L)], v |-> B(r.cut, "C16", "control-connection-closed-by-an-event")]
      [] r.e = "wait" -> [x |-> [x EXCEPT !.s = Pass(@, r.t)], v |-> {}]
      [] r.e = "again" -> [x |-> [x EXCEPT !.s = Pass(@, r.t)], v |-> B(~r.up, "C10", "not-connected-again")]
      [] r.e = "gone" -> [x |-> x, v |-> {<<"C16", "data-collector-gone">>}]
      [] r.e = "stop" ->
            LET s == Pass(x.s, r.t)
                off == {i \in 1..Len(x.cs) : r.got[i] # Wanted(s, x.cs[i].n)}
            IN [x |-> x, v |-> {<<IF x.mode = "bad" THEN "C16" ELSE x.cs[i].p,
                                  "wrong-count-of-" \o x.cs[i].n \o "-" \o ToString(r.got[i]) \o "-not-" \o ToString(Wanted(s, x.cs[i].n))>> : i \in off}]
      [] OTHER -> [x |-> x, v |-> {<<"C16", "unknown-line">>}]

Init == n = 1 /\ st = Empty /\ bad = 0
Next == /\ n <= Len(Trace)
        /\ LET r == Check(st, Trace[n]) IN
           /\ st' = IF r.v = {} THEN r.x ELSE [r.x EXCEPT !.skip = TRUE]
           /\ \A b \in r.v : PrintT("BAD|" \o b[1] \o "|" \o st'.scn \o "|" \o ToString(n) \o "|" \o b[2])
           /\ bad' = bad + Cardinality(r.v)
        /\ n' = n + 1
        /\ (n = Len(Trace)) => PrintT("DONE|" \o ToString(n))
Spec == Init /\ [][Next]_vars
=============================================================================
