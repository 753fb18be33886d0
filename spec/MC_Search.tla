------------------------------ MODULE MC_Search ------------------------------
(* Design model of the chemical-potential search over bands sharing mu: a    *)
(* bracketing search on a doping that is a decreasing step function of mu.   *)
(* Every evaluation writes the trial mu into every band and recounts.        *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Bands, Levels, MaxMu
LevelSet == -2..2

VARIABLES levels,  \* band -> sequence of energies (at mu = 0)
          mu,      \* band -> chemical potential currently written
          lo, hi, target, pc
vars == <<levels, mu, lo, hi, target, pc>>

Card(s, m) == Cardinality({i \in DOMAIN s : s[i] <= m})      \* occupied: E - mu <= 0
Filled(ls, m) == LET f[B \in SUBSET Bands] ==
                       IF B = {} THEN 0 ELSE LET b == CHOOSE x \in B : TRUE
                                             IN Card(ls[b], m[b]) + f[B \ {b}]
                 IN f[Bands]
Same(x) == [b \in Bands |-> x]
(* target is met from the side of large fillings at hi *)
Diff(x) == target - Filled(levels, Same(x))      \* sign of doping - target doping

Init ==
  /\ levels \in [Bands -> {<<x, y>> : x \in Levels, y \in Levels}]
  /\ mu \in [Bands -> {-MaxMu, MaxMu}]
  /\ lo = -MaxMu /\ hi = MaxMu
  /\ target \in 1..(2 * Cardinality(Bands) - 1)
  /\ pc = "search"

Probe(x) ==
  /\ pc = "search" /\ lo < x /\ x < hi
  /\ mu' = Same(x)
  /\ IF Diff(x) > 0 THEN lo' = x /\ UNCHANGED hi ELSE hi' = x /\ UNCHANGED lo
  /\ UNCHANGED <<levels, target, pc>>

(* At the end the answer is written into every band once more: the last      *)
(* probe need not have been at the answer.                                   *)
Finish ==
  /\ pc = "search" /\ hi - lo = 1
  /\ mu' = Same(hi) /\ pc' = "done"
  /\ UNCHANGED <<levels, lo, hi, target>>

Next == (\E x \in (-MaxMu + 1)..(MaxMu - 1) : Probe(x)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bracket == Diff(lo) > 0 /\ Diff(hi) <= 0
Shared == pc = "done" => \A a, b \in Bands : mu[a] = mu[b]
Crosses == pc = "done" =>
  \A b \in Bands : Diff(mu[b] - 1) > 0 /\ Diff(mu[b]) <= 0
Terminates == <>(pc = "done")
=============================================================================
