----------------------------- MODULE MatchTrace -----------------------------
(* Monitor: did the real tally server take or refuse each version of the list
   files as Match says, and did a real data collector that got its START message
   count every value in its class? *)
EXTENDS Match, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfgs, force, skip
vars == <<l, cfgs, force, skip>>
TOP == 2000000000

Bad(r, clause) == PrintT("BAD|C21|" \o r.scn \o "|" \o ToString(l) \o "|" \o clause)

Class(k, lists, x) == IF k = "suf" THEN SuffixClass(lists, x) ELSE IF k = "onion" THEN OnionClass(lists, x) ELSE ExactClass(lists, x)
Lists(c, k) == IF k \in {"exa", "suf"} THEN c.dom ELSE c[k]
\* without lists, the bins are those of the configuration: <<0, 1>> and the rest
Size(m) == IF m = 0 THEN 2 ELSE m + 1
Bins(m) == [b \in 1..Size(m) |-> <<b - 1, IF b = Size(m) THEN TOP ELSE b>>]
Expected(k, lists, probes) ==
    IF lists = <<>> THEN <<0, Len(probes)>>
    ELSE [b \in 1..Size(Len(lists)) |-> Cardinality({p \in 1..Len(probes) : Class(k, lists, probes[p]) = b - 1})]

\* version r.v of the files: taken, refused, or the server is gone
Config(r) ==
    LET v == Valid(r.cfg)
        u == v /\ Unsure(r.cfg)
    IN IF r.fresh THEN
            IF u THEN "ok" ELSE IF v /\ ~r.up THEN "refuses-valid" ELSE IF ~v /\ r.up THEN "takes-invalid" ELSE
            IF r.up /\ r.force # r.v THEN "stalls" ELSE "ok"
       ELSE IF ~r.up THEN IF v THEN "refuses-valid" ELSE "gone-on-invalid"
       ELSE IF r.force = r.v THEN IF ~v THEN "takes-invalid" ELSE "ok"
       ELSE IF r.force = force THEN IF v /\ ~u THEN "refuses-valid" ELSE "ok"
       ELSE "another-version-or-stalls"

\* what a data collector counted in the round of version r.v
Round(r) ==
    LET c == cfgs[r.v]
        ls == Lists(c, r.k)
    IN IF r.b # Bins(Len(ls)) THEN "wrong-bins"
       ELSE IF Len(r.got) # Size(Len(ls)) THEN "bins-missing"
       ELSE IF r.got # Expected(r.k, ls, r.probes) THEN "wrong-class-" \o r.k
       ELSE "ok"

Init == l = 1 /\ cfgs = <<>> /\ force = 0 /\ skip = FALSE
Step ==
    LET r == Trace[l]
        v == IF r.e = "cfg" THEN Config(r) ELSE IF r.e = "round" THEN Round(r) ELSE "ok"
    IN /\ l <= Len(Trace)
       /\ l' = l + 1
       /\ IF r.e = "reset" THEN cfgs' = <<>> /\ force' = 0 /\ skip' = FALSE
          ELSE IF skip THEN UNCHANGED <<cfgs, force, skip>>
          ELSE /\ IF v = "ok" THEN TRUE ELSE Bad(r, v)
               /\ skip' = (v # "ok")
               /\ IF r.e = "cfg" THEN cfgs' = Append(cfgs, r.cfg) /\ force' = IF r.up THEN r.force ELSE 0
                  ELSE UNCHANGED <<cfgs, force>>
Next == Step /\ IF l = Len(Trace) THEN PrintT("DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
