------------------------------- MODULE Delay -------------------------------
(* The delay that protects users when the noise is reduced.

   An allocation is a function from counters to sigmas.  d.last is the end of
   the last successful round (-1: none), d.alloc the allocation that opened the
   current run of compatible rounds.  cfg: [delay, always, tol].             *)
EXTENDS Integers

NoDelay == [last |-> -1, alloc |-> << >>]
Compatible(prev, new, tol) ==
    /\ DOMAIN prev = DOMAIN new
    /\ \A n \in DOMAIN new : prev[n] - new[n] <= tol
NextStart(d, cfg, alloc, rtt) ==
    IF d.last < 0 THEN 0
    ELSE IF cfg.always \/ ~Compatible(d.alloc, alloc, cfg.tol) THEN d.last + cfg.delay + rtt
    ELSE d.last
Permitted(d, cfg, alloc, rtt, t) == t >= NextStart(d, cfg, alloc, rtt)
\* a round with this allocation ended, and counts were returned
Ended(d, cfg, alloc, t) ==
    [last |-> t,
     alloc |-> IF d.last < 0 \/ cfg.always \/ ~Compatible(d.alloc, alloc, cfg.tol) THEN alloc ELSE d.alloc]
=============================================================================
