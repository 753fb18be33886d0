----------------------------- MODULE Trace_C13 -----------------------------
(* C13: recorded scans against the conductivities of newly built bands with  *)
(* the settings of that moment (e.refs[phi][theta][band]).                   *)
EXTENDS TraceLib, Transport, Scan

MySt0 == [o |-> 0]
MyStep(s, e) == s

Total(ts) == FoldLeft(LAMBDA acc, m : Sum3(acc, m), Zero3, ts)
RhoZZ(refs) == [i \in 1..Len(refs) |-> [j \in 1..Len(refs[i]) |-> Inv3(Total(refs[i][j]))[3][3]]]
Add(xs) == FoldLeft(LAMBDA acc, x : RAdd(acc, x), 0, xs)

MyChecks(s, e) ==
  CASE e.ev = "New" ->
         [PolarGrid |-> SeqClose(e.thetas, Grid(e.lo, e.hi, e.step), "1e-12", "1e-9")]
    [] e.ev = "Scan" ->
         [EntriesAreTotals |-> TableClose(e.rhozz, RhoZZ(e.refs), "1e-8", 0),
          NormalisedRows |-> TableClose(e.rzz, Normalised(e.rhozz, e.thetas, e.norm), "1e-11", 0),
          TotalFilling |-> RClose(e.filling, Add(e.fills), "1e-12", "1e-14"),
          TotalHoleDoping |-> RClose(e.doping, RSub(1, Add(e.fills)), "1e-12", "1e-14")]
    [] e.ev = "Look" -> [TotalsStay |-> RClose(e.filling, Add(e.fills), "1e-12", "1e-14") /\ RClose(e.doping, RSub(1, Add(e.fills)), "1e-12", "1e-14")]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
