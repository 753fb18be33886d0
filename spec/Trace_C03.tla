----------------------------- MODULE Trace_C03 ------------------------------
(* C03: surface weights.  For a smooth vector field G vanishing on the zone  *)
(* faces, the flux of G through the constant-energy surface equals the       *)
(* volume integral of div G over the occupied states (divergence theorem),   *)
(* so the weighted points must reproduce it for every field, up to the mesh. *)
EXTENDS TraceLib, BandMath, Integrals

MySt0 == [models |-> <<>>]
MyStep(s, e) ==
  IF e.ev = "Model"
  THEN [s EXCEPT !.models = (e.id :> [ast |-> e.ast, grad |-> GradExpr(e.ast)]) @@ s.models]
  ELSE s

KLim(e, i) == RDiv(e.kmax[i], CASE i = 1 -> e.a [] i = 2 -> e.b [] i = 3 -> e.c)
Box(e) == [i \in 1..3 |-> <<RNeg(KLim(e, i)), KLim(e, i)>>]

(* Building blocks in the variables k_i / L_i, with m half-waves. *)
Half(e, i, m) == EMul(ENum(RDiv(RMul(RMul("0.5", R(m)), Pi), KLim(e, i))), EVar(KNames[i]))
CosH(e, i, m) == EFun("cos", Half(e, i, m))
SinH(e, i, m) == EFun("sin", Half(e, i, m))

(* Windowed fields: every component vanishes on the in-plane faces. *)
Win(e, dims) == IF dims = 2 THEN EMul(CosH(e, 1, 1), CosH(e, 2, 1))
                ELSE EMul(EMul(CosH(e, 1, 1), CosH(e, 2, 1)), CosH(e, 3, 1))
Unit(j, f) == [i \in 1..3 |-> IF i = j THEN f ELSE Zero]
Shapes(e) == <<One, SinH(e, 1, 2), SinH(e, 2, 2), EMul(SinH(e, 1, 2), SinH(e, 2, 2)),
               CosH(e, 1, 4), CosH(e, 2, 4)>>
Shapes3(e) == <<SinH(e, 3, 2), EMul(SinH(e, 1, 2), SinH(e, 3, 2)), CosH(e, 3, 4)>>
Windowed(e, dims) ==
  LET w == Win(e, dims)
      hs == IF dims = 2 THEN Shapes(e) ELSE Shapes(e) \o Shapes3(e)
  IN [x \in 1..(dims * Len(hs)) |-> Unit(1 + ((x - 1) % dims), EMul(w, hs[1 + ((x - 1) \div dims)]))]
(* Fields whose normal component vanishes on the faces. *)
Through(e) ==
  [x \in 1..6 |-> LET j == 1 + ((x - 1) % 3)
                      o == IF j = 3 THEN 1 ELSE j + 1
                  IN Unit(j, IF x <= 3 THEN SinH(e, j, 2) ELSE EMul(SinH(e, j, 4), CosH(e, o, 2)))]

Div(g, dims) == IF dims = 2 THEN EAdd(D(g[1], "kx"), D(g[2], "ky"))
                ELSE EAdd(EAdd(D(g[1], "kx"), D(g[2], "ky")), D(g[3], "kz"))

(* Relative error of each flux, against the total absolute flux (or a quarter *)
(* of the flux of |G| where the surface is nearly parallel to G).             *)
Errors(e, m, fields, dims, box, kx, ky, kz, w, mesh, floor) ==
  LET band == [model |-> m.ast, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params]
      env == Env(band, <<0, 0, 0>>)
      vol == OccupiedIntegrals(m.ast, m.grad, [i \in 1..Len(fields) |-> Div(fields[i], dims)],
                               env, box, mesh, e.eps)
      flx == SurfaceFluxes(fields, m.grad, env, kx, ky, kz, w, dims)
  IN [i \in 1..Len(fields) |->
        RDiv(RAbs(RSub(flx[i][1], vol[i])), RMax(RMax(flx[i][2], RMul("0.25", flx[i][3])), floor))]

MaxOf(s) == FoldLeft(LAMBDA x, y : RMax(x, y), R(0), s)

(* ---- cubes: one surface in three dimensions ---- *)
CubeErrors(e, m) ==
  LET fields == Windowed(e, 3) \o Through(e) IN
  Errors(e, m, fields, 3, Box(e), e.kx, e.ky, e.kz, e.dkf, <<56, 56, 56>>, "1e-30")

(* ---- planes: one contour integral per kz plane ---- *)
Kz(e, j) == RAdd(RNeg(KLim(e, 3)), RDiv(RMul(R(2 * (j - 1)), KLim(e, 3)), R(e.nz - 1)))
PlaneErrors(e, m, j) ==
  LET fields == Windowed(e, 2)
      from == 1 + FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(e.nppk, 1, j - 1))
      to == from + e.nppk[j] - 1
      box == [i \in 1..3 |-> IF i < 3 THEN Box(e)[i] ELSE <<Kz(e, j), Kz(e, j)>>]
      \* scale of a flux through one sheet crossing the plane: a tenth of |G| times the zone width
      floor == RMul("0.1", RAdd(KLim(e, 1), KLim(e, 2)))
  IN Errors(e, m, fields, 2, box, VSub(e.kx, from, to), VSub(e.ky, from, to), VSub(e.kz, from, to),
            VSub(e.dks, from, to), <<220, 220, 1>>, floor)

(* States per energy of a plane: the contour's sum of length over slope is   *)
(* the derivative of the occupied area with respect to the energy.  It is    *)
(* compared where the energy steps e.de and e.de/2 agree on the derivative   *)
(* (no van Hove point or band edge nearby).                                  *)
PlaneStates(e, m, j) ==
  LET band == [model |-> m.ast, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params]
      env == Env(band, <<0, 0, 0>>)
      box == [i \in 1..3 |-> IF i < 3 THEN Box(e)[i] ELSE <<Kz(e, j), Kz(e, j)>>]
      Area(x) == OccupiedIntegrals(m.ast, m.grad, <<One>>, env, box, <<e.fine, e.fine, 1>>, x)[1]
      Slope(h) == RDiv(RSub(Area(RAdd(e.eps, h)), Area(RSub(e.eps, h))), RMul(2, h))
      from == 1 + FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(e.nppk, 1, j - 1))
      to == from + e.nppk[j] - 1
      k == <<VSub(e.kx, from, to), VSub(e.ky, from, to), VSub(e.kz, from, to)>>
      steep == EFun("sqrt", EAdd(EMul(m.grad[1], m.grad[1]), EMul(m.grad[2], m.grad[2])))
  IN [wide |-> Slope(e.de), narrow |-> Slope(RMul("0.5", e.de)),
      points |-> IF e.nppk[j] = 0 THEN R(0)
                 ELSE VSum(VDiv(VSub(e.dks, from, to), EvalOver(steep, env, KNames, k)))]

CONSTANT CubeTol, PlaneTol, StatesTol, CoarseTol

MyChecks(s, e) ==
  IF e.ev # "Surface" THEN [NoError |-> TRUE] ELSE
  LET m == s.models[e.model] IN
  IF e.march
  THEN [NonNegative |-> VFinite(e.dkf) /\ VLen(e.dkf) = e.n /\ e.n > 0 /\ RLe(0, VMin(e.dkf)),
        LengthTimesSpacing |->
          LET dz == RDiv(RMul(2, KLim(e, 3)), R(e.nz - 1)) IN
          /\ VLen(e.dks) = e.n /\ VLen(e.dkz) = e.n
          /\ VClose(e.dkf, VMul(e.dks, e.dkz), "1e-9", 0)
          /\ RClose(VMin(e.dkz), dz, "1e-9", 0) /\ RClose(VMax(e.dkz), dz, "1e-9", 0),
        EveryPlaneStates |-> e.de # "none" =>
          \A j \in 1..e.nz : \E q \in {PlaneStates(e, m, j)} :
            (IF e.show THEN PrintT(<<"states", e.model, j, RStr(q.wide), RStr(q.narrow), RStr(q.points), e.nppk[j]>>) ELSE TRUE)
            /\ (RClose(q.wide, q.narrow, "0.03", 0) => RClose(q.narrow, q.points, IF e.coarse THEN CoarseTol ELSE StatesTol, 0)),
        EveryPlaneQuadrature |-> e.coarse \/
          /\ Len(e.nppk) = e.nz
          /\ \A j \in 1..e.nz : LET x == MaxOf(PlaneErrors(e, m, j)) IN
               (IF e.show THEN PrintT(<<"plane", e.model, j, RStr(x), e.nppk[j]>>) ELSE TRUE) /\ RLe(x, PlaneTol)]
  ELSE [NonNegative |-> VFinite(e.dkf) /\ VLen(e.dkf) = e.n /\ e.n > 0 /\ RLe(0, VMin(e.dkf)),
        SurfaceQuadrature |->
          LET x == MaxOf(CubeErrors(e, m)) IN
          (IF e.show THEN PrintT(<<"cube", e.model, RStr(x), e.n>>) ELSE TRUE) /\ RLe(x, CubeTol)]
=============================================================================
