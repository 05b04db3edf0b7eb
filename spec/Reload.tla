------------------------------- MODULE Reload -------------------------------
(* The configuration of a node, as the operator writes it and as it is used.

   A file is a record:
     form: "ok" (a mapping that has the node's section), or what is wrong
     sec:  the section of the node, from the keys that are present to values
     top:  the keys outside of it (rotate_period, secret_handshake)
   A value is a record [t, n, s]: its type, a number (booleans are 0 and 1,
   tolerances and rates are in millionths) and a text.

   A file is used as a whole or not at all: Valid says which, Effective what
   the node then works with.                                                *)
EXTENDS Integers, Sequences, FiniteSets

NumV(n)  == [t |-> "num", n |-> n, s |-> ""]
BoolV(b) == [t |-> "bool", n |-> IF b THEN 1 ELSE 0, s |-> ""]
StrV(s)  == [t |-> "str", n |-> 0, s |-> s]
Has(f, k) == k \in DOMAIN f
Or(f, k, d) == IF Has(f, k) THEN f[k] ELSE d

Addresses == {"127.0.0.1", "127.0.0.2", "192.0.2.9", "2001:db8::7"}
\* a connection is [t |-> "conn", n |-> port (0 or less: none that works), s |-> address ("": none)]
ConnOk(v, needip) == /\ v.t = "conn" /\ v.n > 0
                     /\ IF v.s = "" THEN ~needip ELSE v.s \in Addresses

Day == 86400
DelayOf(S) == IF ~Has(S, "delay_period") \/ S["delay_period"].n < 0 THEN NumV(Day) ELSE S["delay_period"]
TolOf(S) == Or(S, "sigma_decrease_tolerance", NumV(1))
AlwaysOf(S) == Or(S, "always_delay", BoolV(FALSE))
SecretOf(F) == IF Has(F.sec, "secret_handshake") THEN F.sec["secret_handshake"] ELSE F.top["secret_handshake"]
Common(S) == AlwaysOf(S).t = "bool" /\ TolOf(S).n > 0

----------------------------------------------------------------------------
\* the nodes that check in
ClientKeys(kind) == {"delay_period", "sigma_decrease_tolerance", "always_delay", "secret_handshake"}
                    \cup IF kind = "dc" THEN {"rotate_period", "use_setconf"} ELSE {"name"}
RotateOf(F) == IF Has(F.sec, "rotate_period") THEN F.sec["rotate_period"] ELSE Or(F.top, "rotate_period", NumV(600))
SetconfOf(S) == IF ~Has(S, "use_setconf") THEN TRUE
                ELSE LET v == S["use_setconf"] IN IF v.t = "str" THEN v.s # "" ELSE v.n # 0
ValidClient(kind, F) ==
    /\ F.form = "ok"
    /\ Common(F.sec)
    /\ Has(F.sec, "tally_server_info") /\ ConnOk(F.sec["tally_server_info"], TRUE)
    /\ kind = "dc" =>
        /\ Has(F.sec, "name") /\ F.sec["name"].s # ""
        /\ Has(F.sec, "event_source") /\ ConnOk(F.sec["event_source"], FALSE)
        /\ Has(F.sec, "share_keepers")
        /\ RotateOf(F).n > 0
\* names: the name of a share keeper is that of its key
EffectiveClient(kind, F, names) ==
    LET Own == ClientKeys(kind)
        Val(k) == CASE k = "delay_period" -> DelayOf(F.sec)
                    [] k = "sigma_decrease_tolerance" -> TolOf(F.sec)
                    [] k = "always_delay" -> AlwaysOf(F.sec)
                    [] k = "secret_handshake" -> SecretOf(F)
                    [] k = "rotate_period" -> RotateOf(F)
                    [] k = "use_setconf" -> BoolV(SetconfOf(F.sec))
                    [] k = "name" -> StrV(names[F.sec["key"].s])
    IN [k \in Own \cup (DOMAIN F.sec \ {"state"}) |-> IF k \in Own THEN Val(k) ELSE F.sec[k]]

----------------------------------------------------------------------------
(* The tally server.  bins: from counters to (good or bad) sets of bins, sig:
   from counters to sigmas, accept and reject: the counters that match (only
   there if they are configured), weights: from relays to weights.          *)
Only(F, names) == {n \in names : /\ (n \in DOMAIN F.bins \cap DOMAIN F.sig) =>
                                      /\ (F.accept # <<>> => n \in F.accept[1])
                                      /\ (F.reject # <<>> => n \notin F.reject[1])}
PeriodOf(S, k) == LET most == S["collect_period"].n \div 2
                      v == Or(S, k, NumV(600)).n
                  IN IF v > most THEN most ELSE v
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET k == CHOOSE k \in D : TRUE IN f[k] + Sum(f, D \ {k})
MaxNum == 1000000000
\* weights do not go beyond what can be tallied; the default may be used by a threshold of relays
WeightsOk(w, th) ==
    /\ "*" \in DOMAIN w \/ Cardinality(DOMAIN w) >= th
    /\ \A k \in DOMAIN w : w[k] >= 0
ValidTally(F) ==
    LET S == F.sec IN
    /\ F.form = "ok" /\ F.binsok /\ F.sigok
    /\ Only(F, DOMAIN F.bins) = Only(F, DOMAIN F.sig)
    /\ \A n \in Only(F, DOMAIN F.bins) : F.bins[n] > 0 /\ F.sig[n] >= 0 /\ n \in F.known
    /\ Common(S)
    /\ Has(S, "collect_period") /\ S["collect_period"].n > 0
    /\ PeriodOf(S, "event_period") > 0 /\ PeriodOf(S, "checkin_period") > 0
    /\ \A k \in {"sk_threshold", "dc_threshold", "listen_port"} : Has(S, k) /\ S[k].n > 0
    /\ F.weights # <<>> /\ WeightsOk(F.weights[1], S["dc_threshold"].n)
    /\ Has(S, "circuit_sample_rate") => S["circuit_sample_rate"].n \in 0..1000000
    /\ Has(S, "reject_overlapping_lists") => S["reject_overlapping_lists"].t = "bool"
    /\ Has(S, "continue") => S["continue"].t = "bool" \/ S["continue"].n >= 0
    /\ Has(S, "start_after") => S["start_after"].t = "time"
    /\ Has(S, "results") => S["results"].s \in F.dirs
EffectiveTally(F) ==
    LET S == F.sec IN
    [collect |-> S["collect_period"].n, event |-> PeriodOf(S, "event_period"), checkin |-> PeriodOf(S, "checkin_period"),
     delay |-> DelayOf(S).n, always |-> AlwaysOf(S).n = 1, tol |-> TolOf(S).n,
     dcth |-> S["dc_threshold"].n, skth |-> S["sk_threshold"].n,
     rate |-> Or(S, "circuit_sample_rate", NumV(1000000)).n, cells |-> Or(S, "max_cell_events_per_circuit", NumV(-1)).n,
     cont |-> LET c == Or(S, "continue", BoolV(FALSE)) IN IF c.t = "bool" THEN 0 - 1 - c.n ELSE c.n,
     after |-> IF Has(S, "start_after") THEN S["start_after"].n ELSE 0,
     rej |-> Or(S, "reject_overlapping_lists", BoolV(TRUE)).n = 1,
     results |-> IF Has(S, "results") THEN S["results"].s ELSE ".",
     bins |-> [n \in Only(F, DOMAIN F.bins) |-> F.bins[n]], sig |-> [n \in Only(F, DOMAIN F.bins) |-> F.sig[n]],
     weights |-> F.weights[1]]

----------------------------------------------------------------------------
(* A node: the file on its disk, what it works with, what its round began with.
   Nothing is in force in a node that has not begun.                        *)
Valid(kind, F) == IF kind = "ts" THEN ValidTally(F) ELSE ValidClient(kind, F)
Idle == << >>
NewNode(F) == [file |-> F, force |-> F, round |-> Idle]
Edit(x, F) == [x EXCEPT !.file = F]
Read(x, kind) == IF Valid(kind, x.file) THEN [x EXCEPT !.force = x.file] ELSE x
Begin(x) == [x EXCEPT !.round = <<x.force>>]
End(x) == [x EXCEPT !.round = Idle]
=============================================================================
