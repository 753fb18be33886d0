----------------------------- MODULE Trace_C07 -----------------------------
(* C07: every evaluated lifetime is one over the sum of the selected models' *)
(* documented formulas at the parameter values last set (ScatObj).           *)
EXTENDS TraceLib, Transport, ScatObj

MySt0 == [s |-> <<>>, lat |-> <<>>, dosmax |-> "nan"]
MyStep(st0, e) ==
  CASE e.ev = "New" -> [s |-> NewScat(e.models, e.params), lat |-> [a |-> e.a, b |-> e.b, c |-> e.c], dosmax |-> e.dosmax]
    [] e.ev \in ScatWrites -> [st0 EXCEPT !.s = ScatWrite(st0.s, e)]
    [] e.ev \in {"Surface", "Run"} -> [st0 EXCEPT !.dosmax = e.dosmax]
    [] OTHER -> st0

Of(st0, dosmax, e) == Rates(st0.s.models, st0.s.params, st0.lat, dosmax, e.k, e.v)
Scale(st0) == RSum([i \in 1..1 |-> VSum([m \in 1..Len(st0.s.models) |->
   CASE st0.s.models[m] = "isotropic" -> st0.s.params["gamma_0"]
     [] st0.s.models[m] \in {"cos2phi", "cos2phi_coskz"} -> st0.s.params["gamma_k"]
     [] st0.s.models[m] = "sin2phi" -> st0.s.params["gamma_k_sin"]
     [] OTHER -> st0.s.params["gamma_dos_max"]])])

MyChecks(st0, e) ==
  CASE e.ev = "Eval" ->
         [RateIsSumOfModels |-> VClose(VDiv(Ones(e.n), e.tau), Of(st0, st0.dosmax, e), "1e-8", RMul("1e-11", Scale(st0))),
          InputsUntouched |-> e.inputs_same,
          OneLifetimePerPoint |-> e.shape_same /\ VLen(e.tau) = e.n]
    [] e.ev = "Run" ->
         \* (the surface after the run is the Fermi surface)
         LET g == Of(st0, e.dosmax, e) IN
         [ExtremesOverSurface |-> /\ RClose(e.gmax, VMax(g), "1e-8", RMul("1e-11", Scale(st0)))
                                  /\ RClose(e.gmin, VMin(g), "1e-8", RMul("1e-11", Scale(st0)))]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
