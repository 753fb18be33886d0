----------------------------- MODULE Trace_C09 -----------------------------
(* C09: recorded zero-temperature conductivities against Chambers' formula   *)
(* evaluated by the specification: over the recorded orbits (ChambersRule),  *)
(* over orbits it integrates itself from the settings alone (ChambersFormula)*)
(* and, for parabolic bands, against the Drude tensor.                       *)
EXTENDS TraceLib, Transport

MySt0 == [o |-> 0]
MyStep(s, e) == s

Setting(e) ==
  [band |-> [model |-> e.model, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params],
   grad |-> GradExpr(e.model), models |-> e.models, sparams |-> e.sparams, nbz |-> e.nbz, B |-> e.B, th |-> e.th, ph |-> e.ph]

(* Drude: resistivity m_i/(n e^2 tau) and, for electrons of charge -e, the   *)
(* Hall part E = j x B / (n e).                                              *)
Drude(e) ==
  LET coef == e.coef                      \* meV Angstrom^2 per k_i^2
      n == RDiv(FoldLeft(LAMBDA acc, i : RMul(acc, RSqrt(RDiv(e.fermi, RMul(coef[i], RPow(Ang, 2))))), RDiv(RMul(8, Pi), 3), <<1, 2, 3>>),
                RPow(RMul(2, Pi), 3))
      m == [i \in 1..3 |-> RDiv(RPow(HBar, 2), RMul(2, RMul(coef[i], RMul(MeV, RPow(Ang, 2)))))]
      b == BVector(e.B, e.th, e.ph)
      h == RDiv(1, RMul(n, ECharge))
      hall == <<<<"0", RMul(h, b[3]), RNeg(RMul(h, b[2]))>>,
                <<RNeg(RMul(h, b[3])), "0", RMul(h, b[1])>>,
                <<RMul(h, b[2]), RNeg(RMul(h, b[1])), "0">>>>
      diag == [i \in 1..3 |-> [j \in 1..3 |->
                 IF i = j THEN RDiv(RMul(m[i], RDiv(e.sparams["gamma_0"], Pico)), RMul(n, RPow(ECharge, 2))) ELSE "0"]]
  IN Scale3(RDiv(1, e.nbz), Inv3(Sum3(diag, hall)))

(* a coarse mesh may have no point that moves along i *)
Still(set, e, i) == LET v == SurfVel(set, e.kf) IN RLe(RMax(VMax(v[i]), RNeg(VMin(v[i]))), RMul("1e-9", VMax(Speeds(v)))) /\ RLe(0, e.sigma[i][i])

MyChecks(s, e) ==
  CASE e.ev = "Run" ->
    LET set == Setting(e)
        dt == StepOfTime(set, e, e.N)
        own == IF e.rule THEN SurfaceSigma(set, e, dt, e.n, 0) ELSE Zero3
        formula == IF e.formula THEN SurfaceSigma(set, e, dt, e.n, e.sub) ELSE Zero3
    IN (IF e.rule THEN [ChambersRule |-> Close3(e.sigma, own, "1e-7")] ELSE <<>>) @@
       (IF e.formula THEN [ChambersFormula |-> (IF REq(e.B, 0) THEN TRUE ELSE e.n \in {e.N, e.N + 1}) /\ Close3(e.sigma, formula, "2e-5")] ELSE <<>>) @@
       (IF REq(e.B, 0) THEN [SymmetricWithoutField |-> \A i, j \in 1..3 : RClose(e.sigma[i][j], e.sigma[j][i], "1e-9", RMul("1e-12", Max3(e.sigma))),
                             PositiveWithoutField |-> \A i \in 1..3 : RLt(0, e.sigma[i][i]) \/ Still(set, e, i)] ELSE <<>>)
    [] e.ev = "Drude" -> [DrudeTensor |-> Close3(e.sigma, Drude(e), "0.04")]
=============================================================================
