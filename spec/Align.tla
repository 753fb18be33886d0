------------------------------- MODULE Align --------------------------------
(* Measured curves brought onto the angle grid of a fit.                     *)
(* A curve: [theta, rho] sequences in any order; angles are distinct.        *)
EXTENDS RealOps, Scan, Integers, Sequences, TLC, SequencesExt

Sorted(c) ==
  LET q == SortSeq([i \in 1..Len(c.theta) |-> <<c.theta[i], c.rho[i]>>], LAMBDA x, y : RLt(x[1], y[1]))
  IN [theta |-> [i \in 1..Len(q) |-> q[i][1]], rho |-> [i \in 1..Len(q) |-> q[i][2]]]
At(sc, x) == Interp(x, sc.theta, sc.rho)
OnGrid(sc, grid) == [j \in 1..Len(grid) |-> At(sc, grid[j])]
\* the curve divided by its own value at the normalisation angle
Relative(sc, grid, norm) == LET d == At(sc, norm) IN [j \in 1..Len(grid) |-> RDiv(At(sc, grid[j]), d)]
Scaled(q, f) == [j \in 1..Len(q) |-> RMul(f, q[j])]

RFold(op(_, _), q) == FoldLeft(op, q[1], Tail(q))
Smallest(q) == RFold(RMin, q)
Largest(q) == RFold(RMax, q)

(* Grid of a multi-temperature fit: from the smallest to the largest stated  *)
(* limit, evenly spaced, no coarser than the finest stated step.             *)
Spans(grid, los, his, steps) ==
  LET n == Len(grid)  lo == Smallest(los)  hi == Largest(his)  st == Smallest(steps) IN
  /\ RClose(grid[1], lo, "1e-12", "1e-9") /\ RClose(grid[n], hi, "1e-12", "1e-9")
  /\ \A j \in 1..n - 1 : LET d == RSub(grid[j + 1], grid[j]) IN
       /\ RLt(0, d) /\ RLe(d, RAdd(st, "1e-5"))
       /\ RClose(d, RDiv(RSub(hi, lo), n - 1), "1e-9", "1e-9")
Within(grid, lo, hi) == \A j \in 1..Len(grid) : RLe(RSub(lo, "1e-6"), grid[j]) /\ RLe(grid[j], RAdd(hi, "1e-6"))

(* Grid of a single-temperature fit: lo, lo + step, ... up to hi, cut at the *)
(* smallest stated limit (all angles up to rounding).                        *)
CutGrid(lo, hi, step, cuts) ==
  SelectSeq(Grid(lo, hi, step), LAMBDA x : RLe(x, RAdd(Smallest(cuts), "1e-6")))
=============================================================================
