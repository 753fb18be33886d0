----------------------------- MODULE Trace_C10 -----------------------------
(* C10: recorded windows and tensors against the thermal averages of the     *)
(* specification, the surfaces at the energies of the window being those of  *)
(* newly built bands with the settings last written (TransObj).              *)
EXTENDS TraceLib, Transport, TransObj

MySt0 == [t |-> <<>>, band |-> <<>>, grad |-> <<>>]

MyStep(s, e) ==
  CASE e.ev = "New" ->
         [t |-> NewTrans(e.set, NewScat(e.models, e.sparams), e.params),
          band |-> [model |-> e.model, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params, nbz |-> e.nbz],
          grad |-> GradExpr(e.model)]
    [] e.ev = "Set" -> [s EXCEPT !.t = SetKey(s.t, e.key, e.val)]
    [] e.ev \in ScatWrites -> [s EXCEPT !.t = SetScat(s.t, e)]
    [] e.ev = "SetBand" -> [s EXCEPT !.t = SetBand(s.t, e.params), !.band.params = e.params]
    [] e.ev = "Rediscretize" -> [s EXCEPT !.t = Rediscretize(s.t)]
    [] e.ev = "Run" -> [s EXCEPT !.t = Run(s.t)]
    [] OTHER -> s

Setting(s) ==
  [band |-> s.band, grad |-> s.grad, models |-> s.t.scat.models, sparams |-> s.t.scat.params, nbz |-> s.band.nbz,
   B |-> s.t.bvec["Bamp"], th |-> s.t.bvec["Btheta"], ph |-> s.t.bvec["Bphi"]]

(* ---- the window ---- *)
WindowOK(s, eps) ==
  LET T == s.t.win["T"]  N == s.t.win["N_epsilon"]  v == Vec(eps)
      end == v[N]
      grid == [i \in 1..N |-> RAdd(RNeg(end), RMul(RDiv(RMul(2, end), N - 1), i - 1))]
  IN /\ VLen(eps) = N
     /\ RLt(0, end)
     /\ VClose(eps, grid, 0, RMul("1e-10", end))
     /\ RClose(MinusDfdE(end, T), RMul(s.t.win["dfdE_cut_percent"], MinusDfdE(0, T)), "1e-7", 0)

(* ---- thermal averages ---- *)
Coef(name, E, T) ==
  LET x == RDiv(RMul(E, MeV), RNeg(ECharge)) IN     \* E/(-e) in V
  CASE name = "sigma" -> 1 [] name = "alpha" -> RDiv(x, T) [] name = "beta" -> RDiv(RMul(x, x), T)
Average(name, v, sig, T) ==
  LET d == RSub(v[2], v[1])
      w == [k \in 1..Len(v) |-> RMul(RMul(d, MinusDfdE(v[k], T)), Coef(name, v[k], T))]
  IN [val |-> [i \in 1..3 |-> [j \in 1..3 |-> RSum([k \in 1..Len(v) |-> RMul(w[k], sig[k][i][j])])]],
      size |-> RSum([k \in 1..Len(v) |-> RMul(RAbs(w[k]), Max3(sig[k]))])]
Agrees(m, avg, tol) == \A i \in 1..3 : VClose(m[i], avg.val[i], 0, RMul(tol, avg.size))
NoTensor(m) == \A i, j \in 1..3 : REq(m[i][j], 0)

MyChecks(s, e) ==
  CASE e.ev \in {"New", "Set"} ->
         LET u == MyStep(s, e) IN IF Cold(u.t.set) THEN [NoError |-> TRUE] ELSE [WindowFollowsSettings |-> WindowOK(u, e.eps)]
    [] e.ev = "Run" ->
         LET set == Setting(s)
             dt == StepOfTime(set, e.fermi, s.t.set["N_time"])
             left == [LeftAtFermiLevel |-> \A i \in 1..3 : VClose(e.left[i], e.fermi.kf[i], "1e-9", "1e-9")]
         IN IF Cold(s.t.set)
            THEN [NothingThermalAtZero |-> NoTensor(e.alpha) /\ NoTensor(e.beta),
                  SigmaAtZero |-> Close3(e.sigma, SurfaceSigma(set, e.fermi, dt, e.n, e.sub), "2e-5")] @@ left
            ELSE LET T == s.t.set["T"]
                     v == Vec(e.eps)
                     sig == [k \in 1..Len(e.surfs) |-> SurfaceSigma(set, e.surfs[k], dt, e.n, e.sub)]
                 IN [WindowFollowsSettings |-> WindowOK(s, e.eps),
                     ThermalSigma |-> Agrees(e.sigma, Average("sigma", v, sig, T), "2e-5"),
                     ThermalAlpha |-> Agrees(e.alpha, Average("alpha", v, sig, T), "2e-5"),
                     ThermalBeta  |-> Agrees(e.beta, Average("beta", v, sig, T), "2e-5")] @@ left
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
