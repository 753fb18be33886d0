----------------------------- MODULE Trace_C15 -----------------------------
(* C15: recorded evaluations of the multi-temperature objective.  s holds    *)
(* the table of parameters the declarations and candidates lead to, and the  *)
(* data aligned by this specification.                                       *)
EXTENDS TraceLib, Objective

MySt0 == [o |-> 0]
Now(s, e) == IF "x" \in DOMAIN e THEN Route(s.tab, s.temps, s.labels, e.x) ELSE s.tab
MyStep(s, e) ==
  CASE e.ev = "New" -> [labels |-> e.labels, temps |-> e.temps, tab |-> e.table, data |-> MultiData(e), thetas |-> e.thetas,
                        norm |-> e.norm, normalized |-> e.normalized]
    [] e.ev \in {"Eval", "Export"} -> [s EXCEPT !.tab = Now(s, e)]
    [] OTHER -> s

MyChecks(s, e) ==
  CASE e.ev = "New" -> [BoundsInOrder |-> e.bounds = e.declared, NothingMovedYet |-> e.params = e.table]
    [] e.ev \in {"Eval", "Export"} ->
         [Routed |-> e.params = Now(s, e),
          ReferenceIsRouted |-> e.used = Now(s, e),
          SimulationOfCandidate |->
             \A i \in 1..Len(s.temps) : LET T == s.temps[i] IN
               /\ TableClose(e.rhozz[T], e.refs[T], "1e-9", 0)
               /\ TableClose(e.rzz[T], Normalised(e.refs[T], s.thetas[T], s.norm[T]), "1e-9", 0)] @@
         (IF e.ev = "Eval" THEN [SumOfSquares |-> RClose(e.value, MultiObjective(s, e.refs), "1e-7", "1e-25")] ELSE [NoError |-> TRUE])
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
