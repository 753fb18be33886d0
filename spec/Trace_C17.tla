----------------------------- MODULE Trace_C17 -----------------------------
(* C17: recorded evaluations, saves, loads and completed fits of the         *)
(* single-temperature and series fits.  s holds the record (one table per    *)
(* temperature, band "b") that the declarations and candidates lead to; an   *)
(* imposed doping moves mu, to the recorded value, which must be the one a   *)
(* new object finds (up to the tolerance of its search).                     *)
EXTENDS TraceLib, Objective

MySt0 == [o |-> 0]
Imposed(s, e, tab) ==
  IF ~s.imposed THEN tab
  ELSE FoldLeft(LAMBDA t, T : [t EXCEPT ![T]["b"].b.mu = e.params[T]["b"].b.mu], tab, s.temps)
Start(s, e) ==    \* Load starts from the saved record, RunFit from what was evaluated last
  IF e.ev = "Load" THEN s.saved ELSE s.tab
Now(s, e) == Imposed(s, e, IF "x" \in DOMAIN e THEN Route(Start(s, e), s.temps, s.labels, e.x) ELSE Start(s, e))
New(e) == [labels |-> e.labels, temps |-> e.temps, tab |-> e.table, saved |-> e.table, kind |-> e.kind, imposed |-> e.imposed,
           normalized |-> e.normalized, weight |-> e.weight, thetas |-> e.thetas, scale |-> e.scale,
           data |-> SingleData(e)]
MyStep(s, e) ==
  CASE e.ev = "New" -> New(e)
    [] e.ev \in {"Eval", "Load", "RunFit"} -> [s EXCEPT !.tab = Now(s, e), !.saved = IF e.ev = "RunFit" THEN Now(s, e) ELSE @]
    [] e.ev = "Save" -> [s EXCEPT !.saved = s.tab]
    [] OTHER -> s

AsRecorded(s, e) ==
  [RecordHasCandidate |-> e.params = Now(s, e),
   ReferenceIsRecord |-> e.used = Now(s, e)] @@
  (IF s.imposed THEN [ImposedDoping |-> \A i \in 1..Len(s.temps) : RClose(e.params[s.temps[i]]["b"].b.mu, e.mu, 0, "2.1e-3")]
   ELSE [ReferenceIsRecord |-> e.used = Now(s, e)])

MyChecks(s, e) ==
  CASE e.ev = "New" -> [NothingMovedYet |-> e.params = e.table]
    [] e.ev = "Eval" ->
         AsRecorded(s, e) @@
         [ResidualOfCandidate |-> \E q \in {Residuals(s, e.refs)} :
             IF s.kind = "Parallel" THEN RClose(e.value[1], Squares(q), "1e-7", "1e-25")
             ELSE Len(e.value) = Len(q) /\ \A j \in 1..Len(q) : RClose(e.value[j], q[j], "1e-7", "1e-9")]
    [] e.ev = "Save" -> [FileWhereAsked |-> e.made = <<e.asked>>, FileHoldsRecord |-> e.file = e.record /\ e.params = s.tab]
    [] e.ev = "Load" ->
         AsRecorded(s, e) @@
         [LoadedSimulation |-> \A i \in 1..Len(s.temps) : TableClose(e.rhozz[s.temps[i]], e.refs[s.temps[i]], "1e-9", 0)]
    [] e.ev = "RunFit" ->
         AsRecorded(s, e) @@
         [BestOfEvaluated |-> \E q \in {Squares(Residuals(s, e.refs))} : \A i \in 1..Len(e.evals) : RLe(q, RAdd(RMul(e.evals[i], "1.000001"), "1e-20")),
          WithinBounds |-> \A i \in 1..Len(e.x) : RLe(RSub(e.bounds[i][1], "1e-9"), e.x[i]) /\ RLe(e.x[i], RAdd(e.bounds[i][2], "1e-9")),
          FileWhereAsked |-> e.made = <<e.asked>>,
          FileHoldsRecord |-> e.file = e.record,
          LoadedSimulation |-> \A i \in 1..Len(s.temps) : TableClose(e.rhozz[s.temps[i]], e.refs[s.temps[i]], "1e-9", 0)]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
