----------------------------- MODULE Trace_C02 ------------------------------
(* C02: points of the discretised surface.  One event per surface:           *)
(*  model, a, b, c, scale, params, march, eps, kmax, requested, resolution,  *)
(*  rough (in-plane mesh of the plane algorithm), n, lens (length of every   *)
(*  per-point array), absmax (largest |k| per axis), kf/vf/dos (a sample of  *)
(*  points), nppk (points per plane), kzs (kz of every run of equal kz).     *)
EXTENDS TraceLib, BandMath

HessExpr(grad) == [i \in 1..3 |-> [j \in 1..3 |-> D(grad[i], KNames[j])]]

MySt0 == [models |-> <<>>]
MyStep(s, e) ==
  IF e.ev = "Model"
  THEN LET g == GradExpr(e.ast) IN
       [s EXCEPT !.models = (e.id :> [ast |-> e.ast, grad |-> g, hess |-> HessExpr(g)]) @@ s.models]
  ELSE s

Odd(n) == IF (n % 2) = 0 THEN n + 1 ELSE n

KLim(e, i) == RDiv(e.kmax[i], CASE i = 1 -> e.a [] i = 2 -> e.b [] i = 3 -> e.c)

(* Mesh steps along each axis.  Plane algorithm: the in-plane mesh, no step  *)
(* along z (points lie on their plane).                                      *)
Step3(e) ==
  IF e.march
  THEN [i \in 1..3 |-> IF i = 3 THEN R(0) ELSE RDiv(KLim(e, i), R(e.rough - 1))]
  ELSE [i \in 1..3 |-> RDiv(RMul(2, KLim(e, i)), R(e.resolution[i] - 1))]

(* Linear interpolation between mesh points h apart is wrong by at most      *)
(* h^2/8 times the largest curvature; anywhere in the convex hull of such    *)
(* points in one cell, by at most sum_ij h_i h_j sup|H_ij| / 2.              *)
Tol(e, m) ==
  LET band == [model |-> m.ast, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params]
      env == Env(band, [i \in 1..3 |-> KLim(e, i)])
      h == Step3(e)
      sup == [i \in 1..3 |-> [j \in 1..3 |-> Bound(m.hess[i][j], env)]]
      slope == [i \in 1..3 |-> Bound(m.grad[i], env)]
      single == RSum([i \in 1..3 |-> RMul(RMul("2e-6", KLim(e, i)), slope[i])])  \* single precision
  IN [cell |-> RAdd(single, RMul("0.5", RSum([x \in 1..9 |->
                  LET i == 1 + ((x - 1) \div 3)
                      j == 1 + ((x - 1) % 3)
                  IN RMul(RMul(h[i], h[j]), sup[i][j])]))),
      edge |-> RAdd(single, RMul("0.125",
                  RMax(RMax(RMul(RMul(h[1], h[1]), sup[1][1]), RMul(RMul(h[2], h[2]), sup[2][2])),
                       RMul(RMul(h[3], h[3]), sup[3][3]))))]

SameReal(x, y) == RClose(x, y, "1e-9", "1e-12")

MyChecks(s, e) ==
  IF e.ev # "Surface" THEN [NoError |-> TRUE] ELSE
  LET m == s.models[e.model]
      band == [model |-> m.ast, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params]
      shape == /\ Len(e.kf) = Len(e.vf) /\ Len(e.kf) = Len(e.dos)
               /\ \A i \in 1..Len(e.kf) : Len(e.kf[i]) = 3 /\ Len(e.vf[i]) = 3
      N == Len(e.kf)
      tol == Tol(e, m)
      dev == [i \in 1..N |-> RAbs(RSub(Energy(band, e.kf[i]), e.eps))]
      vel == [i \in 1..N |-> Velocity(band, m.grad, e.kf[i])]
      common ==
       [OnePerPoint |-> shape /\ e.n > 0 /\ N > 0 /\ \A q \in DOMAIN e.lens : e.lens[q] = e.n,
        OddMesh |-> Len(e.resolution) = 3 /\ \A i \in 1..3 : e.resolution[i] = Odd(e.requested[i]),
        InZone |-> \A i \in 1..3 : RLe(e.absmax[i], RMul(KLim(e, i), "1.000001")),
        OnContour |-> shape /\ \A i \in 1..N : RLe(dev[i], tol.cell),
        OnContourAlongEdges |-> shape /\
           20 * Cardinality({i \in 1..N : ~RLe(dev[i], IF e.march THEN tol.cell ELSE tol.edge)}) <= N,
        VelocityOfPoint |-> shape /\ \A i \in 1..N :
           LET speed == Norm(vel[i]) IN
           \A j \in 1..3 : RClose(e.vf[i][j], vel[i][j], "1e-7", RMul("1e-7", speed)),
        DosOfPoint |-> shape /\ \A i \in 1..N :
           RClose(RMul(e.dos[i], RMul(HBar, Norm(vel[i]))), 1, "1e-6", 0)]
      nz == Len(e.nppk)
      planes ==
       [PlanesAddUp |-> /\ nz = e.resolution[3]
                        /\ FoldLeft(LAMBDA x, y : x + y, 0, e.nppk) = e.n,
        \* runs of equal kz, in order, are exactly the planes that have points
        PlanesEven |->
          LET occ == SelectSeq([j \in 1..nz |-> j], LAMBDA j : e.nppk[j] # 0)
              zj(j) == RAdd(RNeg(KLim(e, 3)), RDiv(RMul(R(2 * (j - 1)), KLim(e, 3)), R(nz - 1)))
          IN /\ Len(occ) = Len(e.kzs)
             /\ \A i \in 1..Len(occ) : SameReal(e.kzs[i][1], zj(occ[i])) /\ e.kzs[i][2] = e.nppk[occ[i]]]
  IN IF e.march THEN planes @@ common ELSE common
=============================================================================
