---------------------------- MODULE CountersTrace ----------------------------
(* Monitor: recorded operations on real counters against Counters.           *)
EXTENDS Counters, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>

\* st.obj: object -> [ctrs: name -> bins, cnt: name -> counts]
Empty == [obj |-> << >>, scn |-> "", skip |-> FALSE, B |-> 2, K |-> 1]

Zeros(s, ctrs) == [n \in DOMAIN ctrs |-> [i \in 1..Len(ctrs[n]) |-> Zero(s.K)]]
\* does a structure of counts have the shape of ctrs (more counters are ignored)
Fits(s, ctrs, c) == \A n \in DOMAIN ctrs : /\ n \in DOMAIN c
                                           /\ Len(c[n]) = Len(ctrs[n])
                                           /\ \A i \in 1..Len(c[n]) : IsResidue(s.B, s.K, c[n][i])
Map2(s, ctrs, a, b, F(_, _)) == [n \in DOMAIN ctrs |-> [i \in 1..Len(ctrs[n]) |-> F(a[n][i], b[n][i])]]
Plus(s, ctrs, a, b) == Map2(s, ctrs, a, b, LAMBDA x, y : Add(s.B, x, y))
Minus(s, ctrs, a, b) == Map2(s, ctrs, a, b, LAMBDA x, y : Sub(s.B, x, y))
RECURSIVE PlusAll(_, _, _, _)
PlusAll(s, ctrs, a, xs) == IF xs = <<>> THEN a ELSE PlusAll(s, ctrs, Plus(s, ctrs, a, Head(xs)), Tail(xs))

\* the same object with these counts, or a disagreement
Become(s, r, o, cnt, clause) ==
    [v |-> IF r.raised THEN {<<"C14", "raised">>} ELSE IF r.cnt = cnt THEN {} ELSE {<<"C14", clause>>},
     s |-> [s EXCEPT !.obj = (o :> [s.obj[o] EXCEPT !.cnt = cnt]) @@ s.obj]]

\* a value must be given to a counter with several bins, and only to such
Placed(bins, v) == (Len(bins) = 1) = (v = NAN)
IncCheck(s, r) ==
    LET ob == s.obj[r.o]
        known == r.n \in DOMAIN ob.ctrs
        bins == ob.ctrs[r.n]
        new == IF ~known THEN ob.cnt
               ELSE [ob.cnt EXCEPT ![r.n] = [i \in 1..Len(bins) |->
                        IF Hit(bins, i, r.v) THEN Add(s.B, @[i], r.amount) ELSE @[i]]]
    IN IF known /\ ~Placed(bins, r.v)
       THEN [v |-> IF r.raised /\ r.cnt = ob.cnt THEN {} ELSE {<<"C14", "misplaced-value">>}, s |-> s]
       ELSE Become(s, r, r.o, new, IF known THEN "wrong-bins" ELSE "unknown-counter")

BlindCheck(s, r) ==
    LET ob == s.obj[r.o]
        U == {r.uids[i] : i \in 1..Len(r.uids)}
        fit == ~r.raised /\ DOMAIN r.shares = U /\ \A u \in U : Fits(s, ob.ctrs, r.shares[u])
        new == PlusAll(s, ob.ctrs, ob.cnt, [i \in 1..Len(r.uids) |-> r.shares[r.uids[i]]])
    IN IF ~fit THEN [v |-> {<<"C14", "share-shape">>}, s |-> s]
       ELSE Become(s, r, r.o, new, "blinding")

UnblindCheck(s, r) ==
    LET ob == s.obj[r.o]
        fits == ~r.damaged
    IN IF fits THEN LET b == Become(s, r, r.o, Minus(s, ob.ctrs, ob.cnt, r.share), "unblinding")
                    IN [b EXCEPT !.v = @ \cup (IF ~r.raised /\ ~r.ok THEN {<<"C14", "share-refused">>} ELSE {})]
       ELSE [v |-> IF ~r.raised /\ r.ok THEN {<<"C14", "damaged-share-accepted">>}
                   ELSE IF r.cnt # ob.cnt THEN {<<"C14", "damaged-share-applied">>} ELSE {}, s |-> s]

\* noise: every bin by its own draw, recorded by the random generator's stand-in
NoiseCheck(s, r) ==
    LET ob == s.obj[r.o] IN
    IF r.raised \/ DOMAIN r.cnt # DOMAIN ob.ctrs \/ ~Fits(s, ob.ctrs, r.cnt)
    THEN [v |-> {<<"C14", "noise">>}, s |-> s]
    ELSE [v |-> {}, s |-> [s EXCEPT !.obj = (r.o :> [ob EXCEPT !.cnt = r.cnt]) @@ s.obj]]

TallyCheck(s, r) ==
    LET fits == ~r.damaged
        sum == PlusAll(s, r.ctrs, Zeros(s, r.ctrs), r.parts)
        want == [n \in DOMAIN r.ctrs |-> [i \in 1..Len(r.ctrs[n]) |-> Signed(s.B, sum[n][i])]]
    IN [s |-> s,
        v |-> IF ~fits THEN IF ~r.raised /\ r.ok THEN {<<"C14", "damaged-counts-tallied">>} ELSE {}
              ELSE IF r.raised \/ ~r.ok THEN {<<"C14", "tally-refused">>}
              ELSE IF r.tally # want THEN {<<"C14", "tally">>} ELSE {}]

Check(s, r) ==
    CASE r.e = "reset" -> [v |-> {}, s |-> [Empty EXCEPT !.scn = r.scn, !.B = r.B, !.K = r.K]]
      [] s.skip -> [v |-> {}, s |-> s]
      [] r.e = "new" -> LET z == Zeros(s, r.ctrs)
                        IN [v |-> IF r.raised \/ r.cnt # z THEN {<<"C14", "initial">>} ELSE {},
                            s |-> [s EXCEPT !.obj = (r.o :> [ctrs |-> r.ctrs, cnt |-> z]) @@ s.obj]]
      [] r.e = "inc" -> IncCheck(s, r)
      [] r.e = "blind" -> BlindCheck(s, r)
      [] r.e = "unblind" -> UnblindCheck(s, r)
      [] r.e = "noise" -> NoiseCheck(s, r)
      [] r.e = "detach" -> [v |-> IF r.raised \/ r.cnt # s.obj[r.o].cnt \/ r.left THEN {<<"C14", "detach">>} ELSE {}, s |-> s]
      [] r.e = "tally" -> TallyCheck(s, r)
      [] OTHER -> [v |-> {<<"C14", "unknown-event">>}, s |-> s]

Init == l = 1 /\ st = Empty /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET r == Check(st, Trace[l]) IN
           /\ st' = IF r.v = {} THEN r.s ELSE [r.s EXCEPT !.skip = TRUE]
           /\ \A b \in r.v : PrintT("BAD|" \o b[1] \o "|" \o st'.scn \o "|" \o ToString(l) \o "|" \o b[2])
           /\ bad' = bad + Cardinality(r.v)
        /\ l' = l + 1
        /\ (l = Len(Trace)) => PrintT("DONE|" \o ToString(l))
Spec == Init /\ [][Next]_vars
=============================================================================
