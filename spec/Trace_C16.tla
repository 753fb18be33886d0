----------------------------- MODULE Trace_C16 -----------------------------
(* C16: what each kind of fit made of its data files, against the curves the *)
(* files hold.  e.phis: azimuths the fit uses; e.curves[i]: the measured     *)
(* curve of azimuth e.phis[i] in file order; e.expected: azimuths it should  *)
(* use; per azimuth (in the order of e.phis) the stated limits and scales.   *)
EXTENDS TraceLib, Align

MySt0 == [o |-> 0]
MyStep(s, e) == s

SameAngles(x, y) ==   \* as sets, nothing twice
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : Cardinality({j \in 1..Len(y) : REq(x[i], y[j])}) = 1
  /\ \A j \in 1..Len(y) : Cardinality({i \in 1..Len(x) : REq(x[i], y[j])}) = 1
\* (every curve is sorted once per event)
Rows(e, f(_, _), m, rtol) == Len(m) = Len(e.phis) /\ \A i \in 1..Len(e.phis) : \E sc \in {Sorted(e.curves[i])} : SeqClose(m[i], f(sc, i), rtol, 0)

MyChecks(s, e) ==
  CASE e.ev = "MultiT" ->
         [AzimuthsWithData |-> SameAngles(e.phis, e.expected),
          GridSpans |-> Len(e.thetas) >= 2 /\ Spans(e.thetas, e.los, e.his, e.steps),
          GridWithin |-> Within(e.thetas, Smallest(e.los), Largest(e.his)),
          NormalisedData |-> Rows(e, LAMBDA sc, i : Relative(sc, e.thetas, e.norm), e.rzz, "1e-10"),
          AbsoluteData |-> Rows(e, LAMBDA sc, i : Scaled(OnGrid(sc, e.thetas), e.scale[i]), e.rhozz, "1e-10")]
    [] e.ev = "OneT" ->
         [AzimuthsWithData |-> SameAngles(e.phis, e.expected),
          GridCut |-> SeqClose(e.thetas, CutGrid(e.lo, e.hi, e.step, e.cuts), "1e-12", "1e-9"),
          GridWithin |-> Within(e.thetas, e.lo, RMin(e.hi, Smallest(e.cuts))),
          NormalisedData |-> Rows(e, LAMBDA sc, i : Relative(sc, e.thetas, 0), e.rzz, "1e-10"),
          AbsoluteData |-> Rows(e, LAMBDA sc, i : Scaled(Relative(sc, e.thetas, 0), e.scale[i]), e.rhozz, "1e-10")]
    [] e.ev = "Raw" ->   \* the curve kept for the figures: sorted, cut, normalised
         [RawCurve |-> \E sc \in {Sorted(e.curve)} :
            LET keep == SelectSeq([i \in 1..Len(sc.theta) |-> i], LAMBDA i : RLe(sc.theta[i], e.cut))
                d == At(sc, 0)
            IN /\ SeqClose(e.theta, [j \in 1..Len(keep) |-> sc.theta[keep[j]]], "1e-12", 0)
               /\ SeqClose(e.rzz, [j \in 1..Len(keep) |-> RDiv(sc.rho[keep[j]], d)], "1e-10", 0)
               /\ SeqClose(e.rhozz, [j \in 1..Len(keep) |-> RMul(e.scale, RDiv(sc.rho[keep[j]], d))], "1e-10", 0)]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
