------------------------------ MODULE MC_Align ------------------------------
(* Design model of loading a measured curve: rows in any order are sorted,   *)
(* brought onto the grid, normalised and scaled.  Dev names a deviation that *)
(* must break an invariant.                                                  *)
EXTENDS Align, FiniteSets

CONSTANTS Angles, Values, Norms, Scales, Dev
VARIABLES pc, rows, norm, scale, sorted, rzz, rhozz
vars == <<pc, rows, norm, scale, sorted, rzz, rhozz>>
grid == <<0, 1, 2, 4>>

Orders == {q \in [1..Cardinality(Angles) -> Angles] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
Init == /\ pc = "file"
        /\ \E o \in Orders, v \in [Angles -> Values] : rows = [theta |-> o, rho |-> [i \in DOMAIN o |-> v[o[i]]]]
        /\ norm \in Norms /\ scale \in Scales
        /\ sorted = <<>> /\ rzz = <<>> /\ rhozz = <<>>
Sort == /\ pc = "file" /\ pc' = "sorted"
        /\ sorted' = IF Dev = "NoSort" THEN rows ELSE Sorted(rows)
        /\ UNCHANGED <<rows, norm, scale, rzz, rhozz>>
Grids == /\ pc = "sorted" /\ pc' = "grid"
         /\ rhozz' = OnGrid(sorted, grid)
         /\ UNCHANGED <<rows, norm, scale, sorted, rzz>>
Normalise ==
  /\ pc = "grid" /\ pc' = "norm"
  /\ rzz' = LET d == CASE Dev = "NormOnGrid" -> Interp(norm, grid, rhozz)
                       [] Dev = "FirstRow" -> rows.rho[1]
                       [] OTHER -> At(sorted, norm)
            IN [j \in 1..Len(grid) |-> RDiv(rhozz[j], d)]
  /\ UNCHANGED <<rows, norm, scale, sorted, rhozz>>
Scale == /\ pc = "norm" /\ pc' = "done"
         /\ rhozz' = Scaled(rhozz, scale)
         /\ rzz' = IF Dev = "ScaleBoth" THEN Scaled(rzz, scale) ELSE rzz
         /\ UNCHANGED <<rows, norm, scale, sorted>>
Next == Sort \/ Grids \/ Normalise \/ Scale
Spec == Init /\ [][Next]_vars

(* C16 *)
Sc == Sorted(rows)
NormalisedAtNorm == pc = "done" => SeqClose(rzz, Relative(Sc, grid, norm), "1e-12", 0)
AbsoluteIsScaled == pc = "done" => SeqClose(rhozz, Scaled(OnGrid(Sc, grid), scale), "1e-12", 0)
\* the curve itself at its own angles, and nothing invented between
AtMeasuredAngles == pc = "done" => \A j \in 1..Len(grid) : grid[j] \in Angles =>
  \E i \in 1..Len(rows.theta) : rows.theta[i] = grid[j] /\ RClose(rhozz[j], RMul(scale, rows.rho[i]), "1e-12", 0)
RowOrderIrrelevant == pc = "done" => \A o \in Orders :
  LET other == [theta |-> o, rho |-> [i \in DOMAIN o |-> rows.rho[CHOOSE k \in DOMAIN rows.theta : rows.theta[k] = o[i]]]]
  IN SeqClose(rzz, Relative(Sorted(other), grid, norm), "1e-12", 0)

(* Grids of the single-temperature fits: inside their limits, evenly spaced, *)
(* and rebuilt from their own limits and step they are themselves.           *)
ASSUME \A lo \in {-2, 0, 3}, n \in 1..9, step \in 1..4, cut \in 3..9 :
  LET hi == lo + n  g == CutGrid(lo, hi, step, <<cut, cut + 1>>) IN
  /\ Within(g, lo, RMin(hi, cut))
  /\ Len(g) >= 1
  /\ SeqClose(CutGrid(Smallest(g), Largest(g), step, <<cut>>), g, 0, "1e-9")
ASSUME \A st \in {"0.1", "0.3", "0.7"}, lo \in {"0", "10", "-0.3"}, k \in 1..12 :
  LET g == Grid(lo, RAdd(lo, RMul(k, st)), st) IN Len(g) = k + 1 /\ SeqClose(Grid(g[1], g[k + 1], RSub(g[2], g[1])), g, 0, "1e-9")
=============================================================================
