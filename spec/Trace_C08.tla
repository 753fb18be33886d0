----------------------------- MODULE Trace_C08 -----------------------------
(* C08: recorded field vectors, time grids and orbits against the settings   *)
(* last written (TransObj) and the equation of motion (Transport).           *)
EXTENDS TraceLib, Transport, TransObj

MySt0 == [t |-> <<>>, band |-> <<>>, grad |-> <<>>, taumax |-> "nan"]

\* the longest lifetime over the surface points ks
TauMax(s, e) ==
  LET env == Env(s.band, <<0, 0, 0>>)
      vs == [i \in 1..3 |-> EvalOver(VelE(s.grad)[i], env, KNames, e.kf)]
  IN RDiv(1, VMin(Rates(s.t.scat.models, s.t.scat.params, s.band, e.dosmax, e.kf, vs)))

MyStep(s, e) ==
  CASE e.ev = "New" ->
         LET band == [model |-> e.model, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params] IN
         [t |-> NewTrans(e.set, NewScat(e.models, e.sparams), e.params), band |-> band, grad |-> GradExpr(e.model), taumax |-> "nan"]
    [] e.ev = "Set" -> [s EXCEPT !.t = SetKey(s.t, e.key, e.val)]
    [] e.ev \in ScatWrites -> [s EXCEPT !.t = SetScat(s.t, e)]
    [] e.ev = "SetBand" -> [s EXCEPT !.t = SetBand(s.t, e.params), !.band.params = e.params]
    [] e.ev = "Rediscretize" -> [s EXCEPT !.t = Rediscretize(s.t)]
    [] e.ev = "Run" -> [s EXCEPT !.t = Run(s.t), !.taumax = TauMax(s, e)]
    [] OTHER -> s

Field(s) == BVector(s.t.bvec["Bamp"], s.t.bvec["Btheta"], s.t.bvec["Bphi"])
FieldOK(s, e) == VClose(e.B, Field(s), 0, RMul("1e-12", RAbs(s.t.bvec["Bamp"])))
Grid(dt, n) == [i \in 1..n |-> RMul(dt, i - 1)]
GridOK(s, e, taumax) ==
  LET N == s.t.set["N_time"]
      n == VLen(e.time)
  IN n \in {N, N + 1} /\ VClose(e.time, Grid(RDiv(RMul(8, taumax), N), n), "1e-9", 0)

(* One recorded orbit o (vectors of n samples): every sample follows from    *)
(* the one before by the equation of motion.                                 *)
Env0(s) == Env(s.band, <<0, 0, 0>>)
Lorentz(s) == LorentzE(s.grad, Field(s))
StepsOK(s, e, o, dt) ==
  LET n == VLen(o[1])
      from == [i \in 1..3 |-> VSub(o[i], 1, n - 1)]
      next == OrbitSteps(Lorentz(s), Env0(s), from[1], from[2], from[3], dt, e.sub)
  IN \A i \in 1..3 : VClose(VSub(o[i], 2, n), next[i], 0, e.tol_k)
VelocityOK(s, o) ==
  \A i \in 1..3 : LET v == EvalOver(VelE(s.grad)[i], Env0(s), KNames, SubSeq(o, 1, 3))
                  IN VClose(o[3 + i], v, "1e-9", RMul("1e-9", RAdd(VMax(v), RNeg(VMin(v)))))
Spread(v) == RSub(VMax(v), VMin(v))
EnergyOf(s, o) == EvalOver(s.band.model, Env0(s), KNames, SubSeq(o, 1, 3))
AlongB(s, o) ==
  LET b == Field(s)
      n == Norm(b)
      along == FoldLeft(LAMBDA x, i : EAdd(x, EMul(Num(RDiv(b[i], n)), V(KNames[i]))), Zero, <<1, 2, 3>>)
  IN EvalOver(along, Env0(s), KNames, SubSeq(o, 1, 3))

MyChecks(s, e) ==
  CASE e.ev \in {"New", "Set", "Look"} ->
         [FieldFollowsSettings |-> FieldOK(MyStep(s, e), e)] @@
         (IF e.ev = "Set" /\ e.key = "N_time" /\ s.t.grid # Absent
          THEN [GridFollowsCount |-> GridOK(MyStep(s, e), e, s.taumax)] ELSE <<>>)
    [] e.ev = "AssignB" -> [FieldNotAssignable |-> FieldOK(s, e)]
    [] e.ev = "Run" ->
         [FieldFollowsSettings |-> FieldOK(s, e),
          StartsOnSurface |-> \A i \in 1..3 : VClose(e.start[i], e.kf[i], "1e-12", "1e-12"),
          OneOrbitPerPoint |-> e.norb = VLen(e.kf[1]) /\ (~REq(s.t.set["Bamp"], 0) => e.nt = VLen(e.time)),
          VelocityAlongOrbit |-> \A o \in 1..Len(e.orbits) : VelocityOK(s, e.orbits[o]),
          TimeGrid |-> GridOK(s, e, TauMax(s, e))] @@
         (IF REq(s.t.set["Bamp"], 0)
          THEN [NothingMoves |-> \A o \in 1..Len(e.orbits), i \in 1..3 : REq(Spread(e.orbits[o][i]), 0)]
          ELSE LET dt == RDiv(RMul(8, TauMax(s, e)), s.t.set["N_time"]) IN
               [LorentzForce |-> \A o \in 1..Len(e.orbits) : StepsOK(s, e, e.orbits[o], dt),
                EnergyConserved |-> \A o \in 1..Len(e.orbits) : RLe(Spread(EnergyOf(s, e.orbits[o])), RMul(e.tol_E, s.band.scale)),
                AlongFieldConserved |-> \A o \in 1..Len(e.orbits) : RLe(Spread(AlongB(s, e.orbits[o])), e.tol_B)])
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
