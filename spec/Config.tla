------------------------------- MODULE Config -------------------------------
(* Which counter and noise configurations may be used in a round.

   Values are tagged: [t |-> "n", v |-> integer] a finite number (scaled),
   "inf", "ninf", "nan", or "other" for anything that is not a number.
   A structure is [t |-> "dict", d |-> function] or [t |-> "list", s |-> sequence]
   or another tag.  Names are a table: name -> [known, single].             *)
EXTENDS Integers, Sequences, FiniteSets

Finite(x) == x.t = "n"
Number(x) == x.t \in {"n", "inf", "ninf"}
Less(x, y) == CASE x.t = "n" /\ y.t = "n" -> x.v < y.v
                [] x.t = "ninf" -> y.t # "ninf"
                [] y.t = "inf" -> x.t # "inf"
                [] OTHER -> FALSE
Leq(x, y) == ~Less(y, x)
IsDict(x) == x.t = "dict"
IsList(x) == x.t = "list"
Has(x, k) == IsDict(x) /\ k \in DOMAIN x.d

\* a bin: lower bound below upper bound
BinOk(b) == /\ IsList(b) /\ Len(b.s) = 2
            /\ Number(b.s[1]) /\ Number(b.s[2]) /\ Less(b.s[1], b.s[2])
Apart(b, c) == Leq(b.s[2], c.s[1]) \/ Leq(c.s[2], b.s[1])
BinsOk(bs) == /\ IsList(bs) /\ Len(bs.s) > 0
              /\ \A i \in 1..Len(bs.s) : BinOk(bs.s[i])
              /\ \A i, j \in 1..Len(bs.s) : i # j => Apart(bs.s[i], bs.s[j])
CounterOk(c) == Has(c, "bins") /\ BinsOk(c.d["bins"])
SigmaOk(c) == /\ Has(c, "sigma") /\ Finite(c.d["sigma"]) /\ c.d["sigma"].v >= 0

KnownOk(names, bins) ==
    \A n \in DOMAIN bins.d :
       /\ names[n].known
       /\ names[n].single = (Len(bins.d[n].d["bins"].s) = 1)

\* bins: counter -> bins, sigmas: counter -> noise
CountersOk(names, bins, sigmas, anyName) ==
    /\ IsDict(bins) /\ IsDict(sigmas)
    /\ DOMAIN bins.d = DOMAIN sigmas.d
    /\ \A n \in DOMAIN bins.d : CounterOk(bins.d[n]) /\ SigmaOk(sigmas.d[n])
    /\ anyName \/ KnownOk(names, bins)

------------------------------------------------------------------------------
(* Noise weights: [t |-> "w", u, m] stands for u * 2^60 + m with m in {-1, 0, 1}:
   the total may not exceed the largest signed count, 2^69 - 1 = 512 * 2^60 - 1 *)
MAXU == 512
MAXDC == 1000000
SCALE == 4           \* of the finite numbers; thresholds are whole
Weight(w) == w.t = "w" /\ (w.u > 0 \/ (w.u = 0 /\ w.m >= 0))
RECURSIVE TotalOf(_, _)
TotalOf(f, S) == IF S = {} THEN [u |-> 0, m |-> 0]
                 ELSE LET x == CHOOSE x \in S : TRUE
                          r == TotalOf(f, S \ {x})
                      IN [u |-> f[x].u + r.u, m |-> f[x].m + r.m]
Small(t) == t.u < MAXU \/ (t.u = MAXU /\ t.m < 0)
WeightsOkFor(w, threshold) ==
    /\ threshold >= 1 /\ threshold <= MAXDC
    /\ \A n \in DOMAIN w.d : Weight(w.d[n]) /\ Small([u |-> w.d[n].u, m |-> w.d[n].m])
    /\ "*" \in DOMAIN w.d \/ Cardinality(DOMAIN w.d) >= threshold
    /\ LET t == TotalOf(w.d, DOMAIN w.d \ {"*"})
           d == IF "*" \in DOMAIN w.d THEN w.d["*"] ELSE [u |-> 0, m |-> 0]
       IN \* the default may be used by a threshold of data collectors
          IF d.u > 0 /\ threshold > MAXU THEN FALSE
          ELSE Small([u |-> t.u + d.u * threshold,
                      m |-> t.m + (IF d.u = 0 /\ threshold > MAXU THEN 0 ELSE d.m * threshold)])
WeightsOk(w, th) ==
    /\ IsDict(w)
    /\ Finite(th)
    /\ WeightsOkFor(w, th.v \div SCALE)

------------------------------------------------------------------------------
\* the whole start request of a node
StartOk(node, names, r) ==
    /\ Has(r, "counters") /\ Has(r, "noise") /\ Has(r, "noise_weight") /\ Has(r, "dc_threshold")
    /\ node = "ts" \/ Has(r, "collect_period")
    /\ IsDict(r.d["noise"]) /\ Has(r.d["noise"], "counters")
    /\ CountersOk(names, r.d["counters"], r.d["noise"].d["counters"], node = "sk")
    /\ WeightsOk(r.d["noise_weight"], r.d["dc_threshold"])
    /\ node = "ts" \/ Has(r, IF node = "sk" THEN "shares" ELSE "sharekeepers")
=============================================================================
