----------------------------- MODULE Trace_C11 -----------------------------
(* C11: results of every run along a history equal those recorded from newly *)
(* built objects with the settings of that moment (TransObj); what only      *)
(* looks at the objects changes no result.                                   *)
EXTENDS TraceLib, Transport, TransObj

MySt0 == [t |-> <<>>, refs |-> <<>>, last |-> <<>>]
Results == {"sigma", "alpha", "beta", "gmax", "gmin"}
Of(e) == [q \in Results |-> e[q]]

MyStep(s, e) ==
  CASE e.ev = "Reset" -> MySt0
    [] e.ev = "Ref" -> [s EXCEPT !.refs = Append(@, e)]
    [] e.ev = "New" -> [s EXCEPT !.t = NewTrans(e.set, NewScat(e.models, e.sparams), e.params), !.last = <<>>]
    [] e.ev = "Set" -> [s EXCEPT !.t = SetKey(s.t, e.key, e.val)]
    [] e.ev \in ScatWrites -> [s EXCEPT !.t = SetScat(s.t, e)]
    [] e.ev = "SetBand" -> [s EXCEPT !.t = SetBand(s.t, e.params)]
    [] e.ev = "Rediscretize" -> [s EXCEPT !.t = Rediscretize(s.t)]
    [] e.ev = "Run" -> [s EXCEPT !.t = Run(s.t), !.last = <<Of(e)>>]
    [] OTHER -> s

SameSet(x, y) == \A k \in TransKeys : REq(x[k], y[k])
SameMap(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : REq(f[k], g[k])
\* settings that have no effect on a run
Refs(s) == {i \in 1..Len(s.refs) :
              LET ref == s.refs[i] IN
              SameSet(ref.set, s.t.set) /\ ref.models = s.t.scat.models /\ SameMap(ref.sparams, s.t.scat.params) /\ SameMap(ref.params, s.t.band)}
Agree(m, n) == Close3(m, n, "1e-9")
SameResults(x, y) ==
  /\ \A q \in {"sigma", "alpha", "beta"} : Agree(x[q], y[q])
  /\ \A q \in {"gmax", "gmin"} : RClose(x[q], y[q], "1e-9", 0)

MyChecks(s, e) ==
  CASE e.ev = "Run" ->
         [RunIsFresh |-> \E i \in Refs(s) : SameResults(Of(e), Of(s.refs[i])),
          FiniteTensors |-> \A q \in {"sigma", "alpha", "beta"} : \A i \in 1..3 : VFinite(e[q][i])]
    [] e.ev = "Look" -> [LookingChangesNothing |-> Len(s.last) = 0 \/ SameResults(Of(e), s.last[1])]
    [] OTHER -> [NoError |-> TRUE]
=============================================================================
