----------------------------- MODULE Trace_C14 -----------------------------
(* C14: files recorded after scans.  s: nothing to remember (every event     *)
(* carries the scan it describes, taken from the scan's own arrays).         *)
EXTENDS TraceLib, Report

MySt0 == [o |-> 0]
MyStep(s, e) == s
Add(xs) == FoldLeft(LAMBDA acc, x : RAdd(acc, x), 0, xs)
C(e) == [p |-> RSub(1, Add(e.fills)), T |-> e.T, B |-> e.B, scale |-> e.scale, params |-> e.params, names |-> e.names]

MyChecks(s, e) ==
  CASE e.ev = "Export" ->
         LET c == C(e) @@ [res |-> e.res, phis |-> e.phis, thetas |-> e.thetas, rhozz |-> e.rhozz, rows |-> e.rows] IN
         [FileWhereAsked |-> e.written = <<Path(e.folder, e.filename, c, ".dat")>>,
          OneRowPerAngle |-> Len(e.rows) = Len(e.thetas),
          OneLabelPerColumn |-> e.labels = Labels(c),
          AzimuthLabels |-> Len(e.azimuths) = Len(e.phis) /\ \A i \in 1..Len(e.phis) : REq(e.azimuths[i], e.phis[i]),
          CellsAreScan |-> \A j \in 1..Len(e.rows) : Cells(c, j),
          ExportChangesNothing |-> e.before = e.after]
    [] e.ev = "Figure" ->
         [FigureWhereAsked |-> e.written = <<Path(e.folder, e.filename, C(e), ".pdf")>> /\ e.pdf,
          ExportChangesNothing |-> e.before = e.after]
    [] e.ev = "Name" ->
         [NameEncodesScan |-> e.name = BaseName(C(e)), ExportChangesNothing |-> e.before = e.after]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
