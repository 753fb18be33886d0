----------------------------- MODULE Trace_C04 ------------------------------
(* C04: fillings and dopings are counts of the occupied mesh points (points  *)
(* whose energy is zero up to rounding may be counted either way); the       *)
(* chemical-potential search ends where the doping crosses the target.       *)
(* Events carry bands = sequence of [model, a, b, c, scale, params, kmax,    *)
(* nbz] (one of them for single-band events) and the mesh used.              *)
EXTENDS TraceLib, BandMath, Integrals

MySt0 == [models |-> <<>>]
MyStep(s, e) ==
  IF e.ev = "Model" THEN [s EXCEPT !.models = (e.id :> [ast |-> e.ast]) @@ s.models] ELSE s

Lim(B, i) == RDiv(B.kmax[i], CASE i = 1 -> B.a [] i = 2 -> B.b [] i = 3 -> B.c)

(* Counts of band B with its chemical potential shifted by dmu, per plane. *)
Counts(s, B, mesh, dmu) ==
  LET ps == IF "mu" \in DOMAIN B.params THEN [B.params EXCEPT !["mu"] = RAdd(@, dmu)] ELSE B.params
      band == [model |-> s.models[B.model].ast, a |-> B.a, b |-> B.b, c |-> B.c,
               scale |-> B.scale, params |-> ps]
      env == Env(band, [i \in 1..3 |-> Lim(B, i)])
      tol == RMul("1e-12", Bound(band.model, env))
  IN CountOccupied(band.model, env, [i \in 1..3 |-> <<RNeg(Lim(B, i)), Lim(B, i)>>], mesh, tol)

Total(seq) == FoldLeft(LAMBDA x, y : x + y, 0, seq)
(* [lo, hi] such that the filling is in between *)
FillOf(B, counts, points) ==
  LET sure == Total([j \in 1..Len(counts) |-> counts[j][1]])
      maybe == Total([j \in 1..Len(counts) |-> counts[j][2]])
      per(x) == RDiv(RMul(2, R(x)), RMul(R(points), R(B.nbz)))
  IN <<per(sure), per(sure + maybe)>>
Points(mesh) == mesh[1] * mesh[2] * mesh[3]
Filling(s, B, mesh, dmu) == FillOf(B, Counts(s, B, mesh, dmu), Points(mesh))

(* Where energies are exact in binary arithmetic, points at zero energy count. *)
Exact(iv) == <<iv[2], iv[2]>>

Within(x, iv) == RLe(RSub(iv[1], "1e-9"), x) /\ RLe(x, RAdd(iv[2], "1e-9"))
OneMinus(iv) == <<RSub(1, iv[2]), RSub(1, iv[1])>>
SumFill(s, e, dmu) ==
  LET fs == [i \in 1..Len(e.bands) |-> Filling(s, e.bands[i], e.mesh, dmu)] IN
  <<RSum([i \in 1..Len(fs) |-> fs[i][1]]), RSum([i \in 1..Len(fs) |-> fs[i][2]])>>

(* The doping crosses the target between mu - 2 ptol and mu + 2 ptol. *)
Crosses(s, e) ==
  LET d == RMul(2, e.ptol)
      below == OneMinus(SumFill(s, e, RNeg(d)))
      above == OneMinus(SumFill(s, e, d))
  IN \/ RLe(RSub(below[1], "1e-9"), e.target) /\ RLe(RSub(e.target, "1e-9"), above[2])
     \/ RLe(RSub(above[1], "1e-9"), e.target) /\ RLe(RSub(e.target, "1e-9"), below[2])

MyChecks(s, e) ==
  CASE e.ev = "Fill" ->
         LET iv == Filling(s, e.bands[1], e.mesh, 0) IN
         [FillingIsCount |-> Within(e.n, iv),
          DopingIsOneMinusFilling |-> RClose(e.p, RSub(1, e.n), 0, "1e-9"),
          ReturnedValue |-> (e.ret.n # "none" => RClose(e.ret.n, e.n, 0, "1e-12"))
                            /\ (e.ret.p # "none" => RClose(e.ret.p, e.p, 0, "1e-12"))]
    [] e.ev = "Level" ->
         LET iv == Exact(Filling(s, e.bands[1], e.mesh, 0)) IN
         [LevelIsOccupied |-> Within(e.n, iv) /\ RClose(e.p, RSub(1, e.n), 0, "1e-9")
                               /\ (e.ret.n # "none" => Within(e.ret.n, iv))
                               /\ (e.ret.p # "none" => RClose(e.ret.p, e.p, 0, "1e-12"))]
    [] e.ev = "LevelPerPlane" ->
         LET cs == Counts(s, e.bands[1], e.mesh, 0) IN
         [LevelIsOccupied |-> Len(e.n) = e.mesh[3] /\ Len(e.p) = e.mesh[3] /\
            \A j \in 1..Len(cs) :
               /\ Within(e.n[j], Exact(FillOf(e.bands[1], <<cs[j]>>, e.mesh[1] * e.mesh[2])))
               /\ RClose(e.p[j], RSub(1, e.n[j]), 0, "1e-9")]
    [] e.ev = "PerPlane" ->
         LET cs == Counts(s, e.bands[1], e.mesh, 0) IN
         [PlaneFillingIsCount |-> Len(e.n) = e.mesh[3] /\ Len(e.p) = e.mesh[3] /\
            \A j \in 1..Len(cs) :
               /\ Within(e.n[j], FillOf(e.bands[1], <<cs[j]>>, e.mesh[1] * e.mesh[2]))
               /\ RClose(e.p[j], RSub(1, e.n[j]), 0, "1e-9")]
    [] e.ev = "Total" ->
         [TotalDoping |-> Within(e.ret, OneMinus(SumFill(s, e, 0))),
          EachBandFilled |-> \A i \in 1..Len(e.bands) : Within(e.ns[i], Filling(s, e.bands[i], e.mesh, 0))]
    [] e.ev = "Search" ->
         [SharedChemicalPotential |-> \A i \in 1..Len(e.bands) :
                                        REq(e.bands[i].params["mu"], e.bands[1].params["mu"]),
          DopingCrossesTarget |-> Crosses(s, e),
          SearchReportsFilling |-> \A i \in 1..Len(e.ns) :
             e.ns[i] = "none" \/ Within(e.ns[i], Filling(s, e.bands[i], e.mesh, 0))]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
