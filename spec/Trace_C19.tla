----------------------------- MODULE Trace_C19 -----------------------------
(* C19: the diagnostics of a surface along histories (MC_Diag).  Velocities  *)
(* are those of the dispersion at the current parameters, lifetimes those of *)
(* the scattering settings of the moment; the observed surface points and    *)
(* weights are the code's (C02, C03 decide those).  Cross events compare the *)
(* diagnostics of fine meshes with state counts.                             *)
EXTENDS TraceLib, Transport, TransObj

MySt0 == [t |-> <<>>, grad |-> <<>>, model |-> <<>>, lat |-> <<>>, march |-> FALSE, nz |-> 0, planes |-> 0]

MyStep(s, e) ==
  CASE e.ev = "New" ->
         [t |-> NewTrans(e.set, NewScat(e.models, e.sparams), e.params), grad |-> GradExpr(e.model), model |-> e.model,
          lat |-> [a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale], march |-> e.march, nz |-> e.nz,
          planes |-> IF e.march THEN e.nz ELSE 0]
    [] e.ev = "Set" -> [s EXCEPT !.t = SetKey(s.t, e.key, e.val)]
    [] e.ev \in ScatWrites -> [s EXCEPT !.t = SetScat(s.t, e)]
    [] e.ev = "SetBand" -> [s EXCEPT !.t = SetBand(s.t, e.params), !.planes = 0]
    [] e.ev = "SetMarch" -> [s EXCEPT !.march = e.val]
    [] e.ev = "SetPlanes" -> [s EXCEPT !.nz = e.val]
    [] e.ev = "Rediscretize" -> [s EXCEPT !.t = Rediscretize(s.t), !.planes = IF s.march THEN s.nz ELSE 0]
    [] e.ev = "Run" -> [s EXCEPT !.t = Run(s.t),
                                 !.planes = IF Cold(s.t.set) THEN @ ELSE IF s.march THEN s.nz ELSE 0]
    [] OTHER -> s

BandOf(s) == [model |-> s.model, a |-> s.lat.a, b |-> s.lat.b, c |-> s.lat.c, scale |-> s.lat.scale, params |-> s.t.band]
VelAt(s, ks) == [i \in 1..3 |-> EvalOver(VelE(s.grad)[i], Env(BandOf(s), <<0, 0, 0>>), KNames, ks)]
KSpeeds(vs) == EvalOver(SpeedE, [o |-> 0], <<"vx", "vy", "vz">>, vs)
PerpE(x, y) == EFun("sqrt", EAdd(EPow(EVar(x), 2), EPow(EVar(y), 2)))
Perp(u) == EvalOver(PerpE("x", "y"), [o |-> 0], <<"x", "y">>, <<u[1], u[2]>>)

(* 2/(2 pi)^3 sum w / (hbar |v|), weights in Angstrom^-2. *)
DosUnit == RDiv(RDiv(2, RPow(RMul(2, Pi), 3)), RMul(RPow(Ang, 2), HBar))
DosOf(s, e) == RMul(DosUnit, VSum(VDiv(e.dkf, KSpeeds(VelAt(s, e.kf)))))
(* hbar/(2 pi) sum dk/v_perp over planes, in electron masses. *)
MassUnit(n) == RDiv(RDiv(RDiv(RDiv(HBar, RMul(2, Pi)), Ang), MElec), R(n))
MassOf(s, e) == RMul(MassUnit(s.planes), VSum(VDiv(e.dks, Perp(VelAt(s, e.kf)))))
(* e B v_perp tau / (hbar k_perp), tau in ps. *)
OmegaUnit(B) == RDiv(RMul(RMul(RMul(ECharge, B), Pico), Ang), HBar)
Slow(e, vs) == RMul("1e-7", VMax(Perp(vs)))     \* (points where the product is not defined)
Rational(vs, ks) == EvalOver(EMul(PerpE("vx", "vy"), EPow(PerpE("x", "y"), -1)), [o |-> 0],
                             <<"vx", "vy", "x", "y">>, <<vs[1], vs[2], ks[1], ks[2]>>)
RateOf(s, e, vs) == Rates(s.t.scat.models, s.t.scat.params, s.lat, e.dosmax, e.kf, vs)
Full(x, n) == [i \in 1..n |-> x]
OmegaOf(s, e, vs) == VMul(Full(OmegaUnit(s.t.set["Bamp"]), e.n), VDiv(Rational(vs, e.kf), RateOf(s, e, vs)))
\* the product as computed by the code as received: the lifetime (ps) divides
InvertedOf(s, e, vs) == VMul(Full(OmegaUnit(s.t.set["Bamp"]), e.n), VMul(Rational(vs, e.kf), RateOf(s, e, vs)))
Agree(x, y) == VClose(x, y, "1e-6", "1e-12")

Untouched(e, own) ==
  /\ DOMAIN e.before = DOMAIN e.after
  /\ \A q \in DOMAIN e.before \ own : e.before[q] = e.after[q]

(* ---- fine meshes against state counts ---- *)
KLim(e, i) == RDiv(e.kmax[i], CASE i = 1 -> e.a [] i = 2 -> e.b [] i = 3 -> e.c)
CrossBand(e) == [model |-> e.model, a |-> e.a, b |-> e.b, c |-> e.c, scale |-> e.scale, params |-> e.params]
StatesBelow(e, grad, box, mesh, eps) ==
  OccupiedIntegrals(e.model, grad, <<One>>, Env(CrossBand(e), <<0, 0, 0>>), box, mesh, eps)[1]
BoxOf(e) == [i \in 1..3 |-> <<RNeg(KLim(e, i)), KLim(e, i)>>]
\* derivative of the number of k states per volume, per meV: central differences over de and de/2, extrapolated
SlopeOver(e, grad, box, mesh, de) ==
  RDiv(RAbs(RSub(StatesBelow(e, grad, box, mesh, de), StatesBelow(e, grad, box, mesh, RNeg(de)))), RMul(2, de))
SlopeOf(e, grad, box, mesh) ==
  LET wide == SlopeOver(e, grad, box, mesh, e.de)
      narrow == SlopeOver(e, grad, box, mesh, RMul("0.5", e.de))
  IN RAdd(narrow, RDiv(RSub(narrow, wide), 3))
CountedDos(e) ==
  RMul(RDiv(RDiv(2, RPow(RMul(2, Pi), 3)), RMul(RPow(Ang, 3), MeV)), SlopeOf(e, GradExpr(e.model), BoxOf(e), e.mesh))
PlaneKz(e, j) == RAdd(RNeg(KLim(e, 3)), RDiv(RMul(R(2 * (j - 1)), KLim(e, 3)), R(e.nz - 1)))
CountedMass(e) ==
  LET grad == GradExpr(e.model)
      box(j) == [i \in 1..3 |-> IF i < 3 THEN BoxOf(e)[i] ELSE <<PlaneKz(e, j), PlaneKz(e, j)>>]
      mean == RDiv(RSum([j \in 1..e.nz |-> SlopeOf(e, grad, box(j), <<e.mesh[1], e.mesh[2], 1>>)]), R(e.nz))
  IN RDiv(RMul(RDiv(RPow(HBar, 2), RMul(2, Pi)), RDiv(mean, RMul(RPow(Ang, 2), MeV))), MElec)

CONSTANT CrossTol

MyChecks(s, e) ==
  CASE e.ev = "Dos" -> [DosIsSurfaceSum |-> RClose(e.dos, DosOf(s, e), "1e-6", 0),
                        AskingChangesNothing |-> Untouched(e, {"dos"})]
    [] e.ev = "Mass" -> [MassIsContourSum |-> s.planes > 0 /\ RClose(e.mass, MassOf(s, e), "1e-6", 0),
                         AskingChangesNothing |-> Untouched(e, {"mass"})]
    [] e.ev = "Omega" ->
         LET vs == VelAt(s, e.kf)
             shape == VLen(e.omega) = e.n
             right == shape /\ Agree(e.omega, OmegaOf(s, e, vs))
             inverted == shape /\ ~right /\ Agree(e.omega, InvertedOf(s, e, vs))
         IN [OmegacTau |-> right \/ inverted, OmegacTauInverted |-> ~inverted,
             AskingChangesNothing |-> Untouched(e, {"omega"})]
    [] e.ev = "Cross" ->
         \* (the planes include both faces of the zone, so cubes are counted for the density of states)
         LET want == IF e.march THEN CountedMass(e) ELSE CountedDos(e)
             got == IF e.march THEN e.mass ELSE e.dos
         IN (IF e.march THEN "MassIsAreaDerivative" ELSE "DosCountsStates") :>
              ((IF e.show THEN PrintT(<<e.tag, got, RStr(want)>>) ELSE TRUE) /\ RClose(got, want, CrossTol, 0))
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
