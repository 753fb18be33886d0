----------------------------- MODULE MC_Symmetry -----------------------------
(* The laws of Symmetry are consistent: without field every tensor is        *)
(* symmetric and, for a four-fold band, invariant under quarter turns, so    *)
(* two ways to the same settings must predict the same tensor.  The          *)
(* invariant keeps, for every settings reached, the law it was reached with. *)
(* WrongLaw names a law that is bent to see the invariant fail.              *)
EXTENDS Symmetry, TLC, Json, IOUtils, FiniteSets, Transport

CONSTANTS WrongLaw, Generating, Depth, Span
None == "none"

VARIABLES hasField, fourFold, law, set, hist, bound
vars == <<hasField, fourFold, law, set, hist, bound>>

Init == /\ hasField \in BOOLEAN /\ fourFold \in BOOLEAN
        /\ law = Identity /\ set = NoChange /\ hist = <<>> /\ bound \in IF Generating THEN 1..Depth ELSE {0}

Bent(l, kind, k) == IF kind = WrongLaw THEN [Law(l, kind, k) EXCEPT !.f = @ + k] ELSE Law(l, kind, k)
Small(s) == \A q \in {"rates", "field", "energy", "lattice", "zones"} : s[q] \in (-2 * Span)..(2 * Span)
Do(kind, k) ==
  /\ Applies(kind, hasField, fourFold)
  /\ Generating => Len(hist) < bound
  /\ set' = Effect(set, kind, k) /\ Small(set')
  /\ law' = Bent(law, kind, k)
  /\ hist' = IF Generating THEN Append(hist, [kind |-> kind, k |-> k]) ELSE hist
  /\ UNCHANGED <<hasField, fourFold, bound>>
Next == \E kind \in Kinds, k \in {-1, 1} : Do(kind, k)
Spec == Init /\ [][Next]_vars
GenNext == \E kind \in {RandomElement({x \in Kinds : Applies(x, hasField, fourFold) /\ Len(hist) >= 0})},
              k \in {RandomElement({-1, 1 + 0 * Len(hist)})} : Do(kind, k)
Finish == Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<hasField, fourFold, law, set, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* The exponents of the law follow from the settings alone: sigma goes as    *)
(* energy/(rates lattice) times a function of field energy lattice^2 / rates *)
(* (the angle turned in a lifetime), which is unchanged with a field.        *)
LawFollowsSettings ==
  /\ law.f = set.energy - set.rates - set.lattice
  /\ law.zones = -set.zones
  /\ law.transposed = (set.sign = -1) /\ law.turns = set.turns
AngleUnchanged == hasField => set.field + set.energy + 2 * set.lattice = set.rates

Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([hist |-> hist, field |-> hasField, fourfold |-> fourFold]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

(* And Chambers' formula as specified obeys them: a parabolic band with six  *)
(* points, orbits integrated by the specification, every scaling.            *)
Kx == [op |-> "mul", a |-> [op |-> "var", n |-> "a"], b |-> [op |-> "var", n |-> "kx"]]
Ky == [op |-> "mul", a |-> [op |-> "var", n |-> "b"], b |-> [op |-> "var", n |-> "ky"]]
Kz == [op |-> "mul", a |-> [op |-> "var", n |-> "c"], b |-> [op |-> "var", n |-> "kz"]]
Parabola == EMul(V("t"), EAdd(EMul(Num("1.3"), EMul(Kx, Kx)), EAdd(EMul(Num("0.7"), EMul(Ky, Ky)), EAdd(EMul(Num("0.4"), EMul(Kz, Kz)), EMul(Num("0.2"), EMul(Kx, Ky))))))
Points(l) == [i \in 1..3 |->
   LET p == <<<<"0.31", "-0.2", "0.11", "0.05", "-0.4", "0.3">>, <<"0.1", "0.25", "-0.33", "0.2", "0.15", "-0.05">>, <<"0.07", "-0.12", "0.2", "-0.3", "0.01", "0.25">>>>
   IN [n \in 1..6 |-> RDiv(p[i][n], l)]]
\* l: lattice factor, e: energy factor, g: rate factor, b: field factor
FormulaSigma(l, en, g, b, nbz) ==
  LET band == [model |-> Parabola, a |-> RMul(3, l), b |-> RMul("3.5", l), c |-> RMul(5, l), scale |-> RMul(100, en), params |-> [t |-> 1]]
      s == [band |-> band, grad |-> GradExpr(Parabola), models |-> <<"isotropic", "cos2phi">>, nbz |-> nbz, B |-> b, th |-> 35, ph |-> 70,
            sparams |-> [gamma_0 |-> RMul(9, g), gamma_k |-> RMul(20, g), power |-> 3]]
      x == [kf |-> Points(l), dkf |-> [n \in 1..6 |-> RDiv(RMul("1e19", n), RPow(l, 2))], dosmax |-> 1]
      N == 40
  IN SurfaceSigma(s, x, StepOfTime(s, x, N), N, 12)
FormulaObeys ==
  \A f \in {"2", "0.7"} :
    LET base == FormulaSigma(1, 1, 1, 40, 1)
        still == FormulaSigma(1, 1, 1, 0, 1)
    IN /\ Close3(FormulaSigma(1, 1, f, RMul(40, f), 1), Scale3(RDiv(1, f), base), "1e-8")
       /\ Close3(FormulaSigma(1, f, f, 40, 1), base, "1e-8")
       /\ Close3(FormulaSigma(f, 1, 1, RDiv(40, RPow(f, 2)), 1), Scale3(RDiv(1, f), base), "1e-8")
       /\ Close3(FormulaSigma(1, f, 1, 0, 1), Scale3(f, still), "1e-8")
       /\ Close3(FormulaSigma(1, 1, f, 0, 1), Scale3(RDiv(1, f), still), "1e-8")
       /\ Close3(FormulaSigma(1, 1, 1, 40, 4), Scale3("0.25", base), "1e-8")
       /\ ~Close3(FormulaSigma(1, 1, f, 40, 1), Scale3(RDiv(1, f), base), "1e-3")
ASSUME FormulaObeys
=============================================================================
