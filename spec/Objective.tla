----------------------------- MODULE Objective ------------------------------
(* Objectives of the fits.  s: declarations (normalized, norm, thetas,       *)
(* scale, weight, kind, temps) and the data aligned by this specification    *)
(* (s.data: temperature -> matrix); refs: temperature -> simulated           *)
(* resistivities of the candidate.                                           *)
EXTENDS Routing, Align

Minus(x, y) == [j \in 1..Len(x) |-> RSub(x[j], y[j])]
Flat(m) == FoldLeft(LAMBDA acc, row : acc \o row, <<>>, m)
Squares(q) == RDot(q, q)

(* multi-temperature fit *)
MultiData(e) ==
  [T \in DOMAIN e.curves |->
     [i \in 1..Len(e.curves[T]) |->
        LET sc == Sorted(e.curves[T][i]) IN
        IF e.normalized THEN Relative(sc, e.thetas[T], e.norm[T]) ELSE Scaled(OnGrid(sc, e.thetas[T]), e.scale[T][i])]]
MultiSim(s, refs, T) == IF s.normalized THEN Normalised(refs[T], s.thetas[T], s.norm[T]) ELSE refs[T]
MultiObjective(s, refs) ==
  FoldLeft(LAMBDA acc, T : LET sim == MultiSim(s, refs, T) IN
     FoldLeft(LAMBDA a, i : RAdd(a, Squares(Minus(s.data[T][i], sim[i]))), acc, [i \in 1..Len(sim) |-> i]), 0, s.temps)

(* single-temperature and series fits: every curve divided by its own value at zero angle *)
SingleData(e) ==
  [T \in DOMAIN e.curves |-> [i \in 1..Len(e.curves[T]) |-> Relative(Sorted(e.curves[T][i]), e.thetas[T], 0)]]
Rzz(s, refs, T) == LET sim == Normalised(refs[T], s.thetas[T], 0) IN [i \in 1..Len(sim) |-> Minus(s.data[T][i], sim[i])]
\* resistivities in mOhm.cm
Rho(s, refs, T) == [i \in 1..Len(refs[T]) |->
   [j \in 1..Len(refs[T][i]) |-> RMul("1e5", RSub(RMul(s.scale[T][i], s.data[T][i][j]), refs[T][i][j]))]]
AtZero(s, refs, T) == [i \in 1..Len(refs[T]) |->
   RMul(RMul(s.weight, "1e5"), RSub(s.scale[T][i], Interp(0, s.thetas[T], refs[T][i])))]
Residual(s, refs, T) ==
  IF s.kind = "SeriesMulti" THEN Flat(Rzz(s, refs, T)) \o (IF s.normalized THEN <<>> ELSE AtZero(s, refs, T))
  ELSE Flat(IF s.normalized THEN Rzz(s, refs, T) ELSE Rho(s, refs, T))
Residuals(s, refs) == FoldLeft(LAMBDA acc, T : acc \o Residual(s, refs, T), <<>>, s.temps)
=============================================================================
