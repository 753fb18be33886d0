-------------------------------- MODULE Scan --------------------------------
(* Angle scans: grids, interpolation and normalisation, as mathematics.      *)
EXTENDS RealOps, Integers, Sequences

(* lo, lo + step, ... not beyond hi (up to rounding). *)
GridLen(lo, hi, step) == 1 + RToInt(RFloor(RAdd(RDiv(RSub(hi, lo), step), "1e-6")))
Grid(lo, hi, step) == [i \in 1..GridLen(lo, hi, step) |-> RAdd(lo, RMul(i - 1, step))]

(* Piecewise linear through the points (xs[i], ys[i]), xs increasing;        *)
(* constant outside.                                                         *)
RECURSIVE Segment(_, _, _)
Segment(x, xs, i) == IF i = Len(xs) - 1 \/ RLe(x, xs[i + 1]) THEN i ELSE Segment(x, xs, i + 1)
Interp(x, xs, ys) ==
  IF Len(xs) = 1 \/ RLe(x, xs[1]) THEN ys[1]
  ELSE IF RLe(xs[Len(xs)], x) THEN ys[Len(xs)]
  ELSE LET i == Segment(x, xs, 1)
           w == RDiv(RSub(x, xs[i]), RSub(xs[i + 1], xs[i]))
       IN RAdd(RMul(RSub(1, w), ys[i]), RMul(w, ys[i + 1]))

(* Each row divided by its own value at norm. *)
Normalised(table, thetas, norm) ==
  [i \in 1..Len(table) |-> LET d == Interp(norm, thetas, table[i]) IN [j \in 1..Len(table[i]) |-> RDiv(table[i][j], d)]]

SeqClose(x, y, rtol, atol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RClose(x[i], y[i], rtol, atol)
TableClose(x, y, rtol, atol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SeqClose(x[i], y[i], rtol, atol)
=============================================================================
