------------------------------ MODULE Transport ------------------------------
(* The physics of a transport calculation, as functions of its settings:     *)
(* scattering rates as expressions, the Lorentz force, Chambers' formula,    *)
(* the thermal window.  Lengths in Angstrom, times in ps, energies in meV.   *)
EXTENDS BandMath, Integrals

ECharge == "1.602176634e-19"      \* C
KBmeV   == RDiv("1.380649e-23", MeV)   \* meV / K
MElec   == "9.1093837139e-31"     \* kg (compared to 1e-7: CODATA releases differ)
Pico    == "1e-12"
Deg(x)  == RMul(x, RDiv(Pi, 180))

(* ---- scattering: Matthiessen sum of the documented formulas ---- *)
V(n) == EVar(n)
Num(x) == ENum(x)
\* k folded back into [-pi/l, pi/l)
FoldE(k, l) == ESub([op |-> "mod", a |-> EAdd(V(k), EMul(Num(Pi), EPow(V(l), -1))), b |-> EMul(Num(RMul(2, Pi)), EPow(V(l), -1))],
                    EMul(Num(Pi), EPow(V(l), -1)))
PhiE == EFun2("atan2", FoldE("ky", "b"), FoldE("kx", "a"))
AbsPow(f, p) == EFun2("powr", EFun("abs", f), V(p))
SpeedE == EFun("sqrt", EAdd(EAdd(EPow(V("vx"), 2), EPow(V("vy"), 2)), EPow(V("vz"), 2)))
RateE(model) ==
  CASE model = "isotropic" -> V("gamma_0")
    [] model = "cos2phi" -> EMul(V("gamma_k"), AbsPow(EFun("cos", EMul(Num("2"), PhiE)), "power"))
    [] model = "cos2phi_coskz" ->
         EMul(EMul(V("gamma_k"), AbsPow(EFun("cos", EMul(Num("2"), PhiE)), "power")),
              AbsPow(EFun("cos", EMul(Num("0.5"), EMul(V("kz"), V("c")))), "power_z"))
    [] model = "sin2phi" -> EMul(V("gamma_k_sin"), AbsPow(EFun("sin", EMul(Num("2"), PhiE)), "power_sin"))
    \* local density of states 1/(hbar v) relative to its maximum on the surface
    [] model = "gamma_dos_func" ->
         EMul(V("gamma_dos_max"), EMul(EMul(Num(RDiv(1, HBar)), EPow(SpeedE, -1)), EPow(V("dosmax"), -1)))
TotalRateE(models) ==
  FoldLeft(LAMBDA acc, m : EAdd(acc, RateE(m)), Zero, models)

(* Parameters for rates: those of the scattering, the lattice and dosmax. *)
RateEnv(sp, lat, dosmax) == sp @@ [a |-> lat.a, b |-> lat.b, c |-> lat.c, dosmax |-> dosmax]
KVNames == <<"kx", "ky", "kz", "vx", "vy", "vz">>
Rates(models, sp, lat, dosmax, ks, vs) ==
  IF VLen(ks[1]) = 0 THEN <<>>
  ELSE EvalOver(TotalRateE(models), RateEnv(sp, lat, dosmax), KVNames, ks \o vs)

(* ---- the field and the equation of motion ---- *)
BVector(B, th, ph) ==
  <<RMul(B, RMul(RSin(Deg(th)), RCos(Deg(ph)))), RMul(B, RMul(RSin(Deg(th)), RSin(Deg(ph)))), RMul(B, RCos(Deg(th)))>>
\* velocities in m/s as expressions, from the gradient in meV Angstrom
VelE(grad) == [i \in 1..3 |-> EMul(Num(VUnit), grad[i])]
LorentzUnit == RDiv(RMul(RMul(ECharge, Pico), Ang), HBar)
\* dk/dt = (e/hbar) v x B : the electron's path backwards in time
LorentzE(grad, bv) ==
  LET v == VelE(grad)
      x(i, j) == ESub(EMul(Num(RMul(LorentzUnit, bv[j])), v[i]), EMul(Num(RMul(LorentzUnit, bv[i])), v[j]))
  IN <<x(2, 3), x(3, 1), x(1, 2)>>

(* ---- Chambers' formula (SI) ---- *)
ChambersUnit(nbz) ==
  RDiv(RDiv(RMul(RMul(2, RPow(ECharge, 2)), RDiv(Pico, RPow(Ang, 2))), RPow(RMul(2, Pi), 3)), nbz)
Scale3(f, m) == [i \in 1..3 |-> [j \in 1..3 |-> RMul(f, m[i][j])]]
\* without field: v_j times the local lifetime
LocalSum(w, vs, gamma) ==
  [i \in 1..3 |-> [j \in 1..3 |-> VSum(VMul(VMul(w, vs[i]), VDiv(vs[j], gamma)))]]
Max3(m) == VMax([x \in 1..9 |-> RAbs(m[1 + ((x - 1) \div 3)][1 + ((x - 1) % 3)])])
Close3(m, n, tol) ==
  /\ Len(m) = 3 /\ Len(n) = 3
  /\ \A i \in 1..3 : VClose(m[i], n[i], 0, RMul(tol, RMax(Max3(n), Max3(m))))

Inv3(m) ==
  LET c(i, j) == LET p == 1 + (i % 3)  q == 1 + ((i + 1) % 3)  u == 1 + (j % 3)  v == 1 + ((j + 1) % 3)
                 IN RSub(RMul(m[p][u], m[q][v]), RMul(m[p][v], m[q][u]))
      cof == [i \in 1..3 |-> [j \in 1..3 |-> c(i, j)]]
      det == RDot(m[1], cof[1])
  IN [i \in 1..3 |-> [j \in 1..3 |-> RDiv(cof[j][i], det)]]
Sum3(m, n) == [i \in 1..3 |-> [j \in 1..3 |-> RAdd(m[i][j], n[i][j])]]
Zero3 == [i \in 1..3 |-> [j \in 1..3 |-> "0"]]

(* Conductivity of one surface.  s: [band, grad, models, sparams, nbz, B, th,*)
(* ph]; the surface points and their weights (m^-2) are x.kf, x.dkf, the     *)
(* largest local density of states x.dosmax; dt and n: step and number of    *)
(* times.  With sub = 0 the orbits are the recorded x.kft.                   *)
SurfVel(s, ks) == [i \in 1..3 |-> EvalOver(VelE(s.grad)[i], Env(s.band, <<0, 0, 0>>), KNames, ks)]
Speeds(vs) == EvalOver(SpeedE, [o |-> 0], <<"vx", "vy", "vz">>, vs)
Ones(n) == [i \in 1..n |-> "1"]
DosK(vs) == VDiv(Ones(VLen(vs[1])), VMul(Speeds(vs), [i \in 1..VLen(vs[1]) |-> HBar]))
RatesOn(s, x, ks) == Rates(s.models, s.sparams, s.band, x.dosmax, ks, SurfVel(s, ks))
SurfaceSigma(s, x, dt, n, sub) ==
  LET vs == SurfVel(s, x.kf)
      w == VMul(x.dkf, DosK(vs))
      unit == ChambersUnit(s.nbz)
  IN IF REq(s.B, 0)
     THEN Scale3(unit, LocalSum(w, vs, RatesOn(s, x, x.kf)))
     ELSE LET ks == IF sub = 0 THEN x.kft
                    ELSE Orbits(LorentzE(s.grad, BVector(s.B, s.th, s.ph)), Env(s.band, <<0, 0, 0>>), x.kf[1], x.kf[2], x.kf[3], dt, n, sub)
              v == SurfVel(s, ks)
          IN Scale3(unit, ChambersSum(w, v[1], v[2], v[3], RatesOn(s, x, ks), n, dt))
\* 8 longest lifetimes of the surface x, in steps
StepOfTime(s, x, N) == RDiv(RMul(8, RDiv(1, VMin(RatesOn(s, x, x.kf)))), N)

(* ---- thermal window ---- *)
KT(T) == RMul(KBmeV, T)
MinusDfdE(x, T) == RDiv(1, RMul(RMul(4, KT(T)), RPow(RCosh(RDiv(x, RMul(2, KT(T)))), 2)))
=============================================================================
