----------------------------- MODULE Trace_C18 -----------------------------
(* C18: objective values returned by persistent worker copies and by pools   *)
(* of processes, and completed parallel fits.  s holds the declarations, the *)
(* table every fit object was built with and the aligned data; nothing of    *)
(* earlier evaluations enters the specification: the value of a candidate is *)
(* a function of that candidate.                                             *)
EXTENDS TraceLib, Objective

MySt0 == [o |-> 0]
New(e) == [labels |-> e.labels, temps |-> e.temps, base |-> e.table, kind |-> e.kind, normalized |-> e.normalized, thetas |-> e.thetas] @@
          (IF e.kind = "Multi" THEN [norm |-> e.norm, imposed |-> FALSE, data |-> MultiData(e)]
           ELSE [imposed |-> e.imposed, scale |-> e.scale, weight |-> 0, data |-> SingleData(e)])
MyStep(s, e) == IF e.ev = "New" THEN New(e) ELSE s

Of(s, e, x) ==
  LET t == Route(s.base, s.temps, s.labels, x) IN
  IF ~s.imposed THEN t ELSE FoldLeft(LAMBDA u, T : [u EXCEPT ![T]["b"].b.mu = e.mu], t, s.temps)
Value(s, refs) == IF s.kind = "Multi" THEN MultiObjective(s, refs) ELSE Squares(Residuals(s, refs))
Close(a, b) == RClose(a, b, "1e-7", "1e-25")
Inside(x, bounds) == \A i \in 1..Len(x) : RLe(bounds[i][1], x[i]) /\ RLe(x[i], bounds[i][2])

MyChecks(s, e) ==
  CASE e.ev = "Value" ->
         [ReferenceIsCandidate |-> e.used = Of(s, e, e.x),
          ValueOfCandidate |-> Close(e.value, Value(s, e.refs))]
    [] e.ev = "Pool" ->      \* candidates e.xs spread over processes, against the same candidates one by one
         [OneValuePerCandidate |-> Len(e.values) = Len(e.alone),
          SameInAnyWorker |-> \A i \in 1..Len(e.alone) : Close(e.values[i], e.alone[i]),
          CallerUntouched |-> e.params = s.base]
    [] e.ev = "Fit" ->
         [SameAsSerial |-> \/ \A i \in 1..Len(e.x) : RClose(e.x[i], e.serial[i], "1e-9", "1e-12")
                           \* (candidates of equal merit are interchangeable)
                           \/ RClose(e.best, e.serialbest, "1e-9", "1e-25"),
          SameEvaluations |-> Len(e.evals) = Len(e.alone) /\ \A i \in 1..Len(e.alone) : Close(e.evals[i], e.alone[i]),
          WithinBounds |-> Inside(e.x, e.bounds),
          CarriesBest |-> e.params = Of(s, e, e.x) /\ e.used = Of(s, e, e.x),
          BestIsBest |-> \E v \in {Value(s, e.refs)} :
              /\ Close(v, e.best)
              /\ \A i \in 1..Len(e.evals) : RLe(v, RAdd(RMul(e.evals[i], "1.0000001"), "1e-25")),
          CurvesOfBest |-> \A i \in 1..Len(s.temps) : LET T == s.temps[i] IN TableClose(e.rhozz[T], e.refs[T], "1e-9", 0)]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
