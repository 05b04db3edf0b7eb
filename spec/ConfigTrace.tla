----------------------------- MODULE ConfigTrace -----------------------------
(* Monitor: every configuration given to a node was accepted exactly when it may
   be, and refusing it left the node running and idle.                       *)
EXTENDS Config, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

Verdict(r) ==
    LET ok == StartOk(r.node, r.names, r.req) IN
    IF r.exit THEN {"node-exit"}
    ELSE IF ok THEN IF ~r.accepted THEN {"good-refused"}
                    ELSE IF r.node # "ts" /\ (r.state # "active" \/ r.stopped # "ok") THEN {"accepted-not-active"} ELSE {}
         ELSE IF r.accepted THEN {"bad-accepted"}
              ELSE IF ~r.refused THEN {"no-answer"}
              ELSE IF r.state # "idle" THEN {"refused-not-idle"} ELSE {}

Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l]) IN
           /\ \A b \in v : PrintT("BAD|C15|" \o Trace[l].scn \o "|" \o ToString(l) \o "|" \o b)
           /\ bad' = bad + Cardinality(v)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => PrintT("DONE|" \o ToString(l))
Spec == Init /\ [][Next]_vars
=============================================================================
