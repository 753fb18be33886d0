----------------------------- MODULE Trace_C01 ------------------------------
(* C01: energies and velocities are the user's dispersion and its exact      *)
(* gradient at the current parameters; parameters read back as last set.     *)
(* The abstract band is BandObj's settings; events are its public calls.     *)
EXTENDS TraceLib, BandMath, BandObj

(* Rigorous scales for rounding errors: bounds of |E| and |grad E| near k.  *)
EScale(band, k) == Bound(band.model, Env(band, k))
VScale(band, grad, k) ==
  LET env == Env(band, k) IN [i \in 1..3 |-> RMul(Bound(grad[i], env), VUnit)]

MySt0 == [models |-> <<>>, objs |-> <<>>]

MyStep(s, e) ==
  IF e.ev = "Model" THEN
    [s EXCEPT !.models = (e.id :> [ast |-> e.ast, grad |-> GradExpr(e.ast)]) @@ s.models]
  ELSE IF e.ev = "New" THEN [s EXCEPT !.objs = (e.obj :> NewBand(e)) @@ s.objs]
  ELSE IF e.ev \in BandWrites THEN [s EXCEPT !.objs = [s.objs EXCEPT ![e.obj] = BandWrite(@, e)]]
  ELSE s

MyChecks(s, e) ==
  CASE e.ev = "Eval" ->
        LET o == s.objs[e.obj]
            m == s.models[o.model]
            band == [model |-> m.ast, a |-> o.a, b |-> o.b, c |-> o.c,
                     scale |-> o.scale, params |-> o.params]
            n == Len(e.k)
            shape == Len(e.e) = n /\ Len(e.v) = n
        IN [OneValuePerPoint |-> shape,
            EnergyIsDispersion |-> shape /\ \A i \in 1..n :
               RClose(e.e[i], Energy(band, e.k[i]), "1e-9",
                      RMul("1e-11", EScale(band, e.k[i]))),
            VelocityIsGradient |-> shape /\ \A i \in 1..n :
               LET v == Velocity(band, m.grad, e.k[i])
                   sc == VScale(band, m.grad, e.k[i])
               IN Len(e.v[i]) = 3 /\ \A j \in 1..3 :
                    RClose(e.v[i][j], v[j], "1e-8", RMul("1e-10", sc[j]))]
    [] e.ev = "Get" -> [ReadBack |-> IF e.key \in DOMAIN s.objs[e.obj].params
                                     THEN REq(e.ret, s.objs[e.obj].params[e.key])
                                     ELSE e.ret = "none"]
    [] e.ev = "GetAll" -> [ReadBackAll |->
            /\ DOMAIN e.ret = DOMAIN s.objs[e.obj].params
            /\ \A x \in DOMAIN e.ret : REq(e.ret[x], s.objs[e.obj].params[x])
            /\ REq(e.scale, s.objs[e.obj].scale)]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
