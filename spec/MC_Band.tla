------------------------------- MODULE MC_Band -------------------------------
(* Design model of one band object under every sequence of calls: checked    *)
(* exhaustively for small constants (Generating = FALSE), and the generator  *)
(* of the histories that are replayed into the code (Generating = TRUE in    *)
(* -simulate runs: each finished history is appended to a file as JSON).     *)
EXTENDS BandObj, Json, IOUtils, FiniteSets

CONSTANTS Keys,      \* declared parameters ("mu" among them)
          Undeclared,
          Vals,      \* values a parameter can take
          Scales, Epss, Meshes, Targets,
          Kinds,     \* calls considered
          Generating, Depth

MyFALSE == FALSE

VARIABLES b, hist, bound
vars == <<b, hist, bound>>

(* The mu found for target t: a value determined by the other settings. *)
Solved(t) ==
  "mu:" \o ToString(<<t, [k \in Keys \ {"mu"} |-> b.params[k]], b.scale>>)

Init ==
  /\ \E m \in BOOLEAN :
       b = NewBand([model |-> "m", a |-> 1, b |-> 1, c |-> 1,
                    scale |-> CHOOSE x \in Scales : TRUE,
                    params |-> [k \in Keys |-> CHOOSE v \in Vals : TRUE], march |-> m])
  /\ hist = <<>>
  /\ bound \in IF Generating THEN 4..Depth ELSE {0}

Do(e) ==
  /\ e.ev \in Kinds
  /\ Generating => Len(hist) < bound
  /\ b' = BandWrite(b, e)
  /\ hist' = IF Generating THEN Append(hist, e) ELSE hist
  /\ UNCHANGED bound

DoSetItem    == \E k \in Keys, v \in Vals : Do([ev |-> "SetItem", key |-> k, val |-> v])
DoSetUnknown == \E k \in Undeclared, v \in Vals : Do([ev |-> "SetItem", key |-> k, val |-> v])
DoSetParams  == \E p \in [Keys -> Vals] : Do([ev |-> "SetParams", params |-> p])
DoSetScale   == \E v \in Scales : Do([ev |-> "SetScale", val |-> v])
DoSetMarch   == Do([ev |-> "SetMarch", val |-> ~b.march])
DoDiscretize == \E x \in Epss : Do([ev |-> "Discretize", eps |-> x])
DoRunBand    == \E x \in Epss : Do([ev |-> "RunBand", eps |-> x])
DoFill       == \E x \in Meshes : Do([ev |-> "Fill", mesh |-> x])
DoDos        == b.fs # None /\ Do([ev |-> "Dos"])
DoMass       == b.planes # None /\ Do([ev |-> "Mass"])
DoSetMu      == \E t \in Targets : Do([ev |-> "SetMu", target |-> t, val |-> Solved(t)])

Next == DoSetItem \/ DoSetUnknown \/ DoSetParams \/ DoSetScale \/ DoSetMarch
        \/ DoDiscretize \/ DoRunBand \/ DoFill \/ DoDos \/ DoMass \/ DoSetMu

(* Generated histories draw the kind of call first, so that calls with many  *)
(* arguments do not crowd out the others; a call not possible is skipped.    *)
Draw(k) ==
  CASE k = "SetItem" -> DoSetItem \/ DoSetUnknown
    [] k = "SetParams" -> DoSetParams
    [] k = "SetScale" -> DoSetScale
    [] k = "SetMarch" -> DoSetMarch
    [] k = "Discretize" -> DoDiscretize
    [] k = "RunBand" -> DoRunBand
    [] k = "Fill" -> DoFill
    [] k = "Dos" -> DoDos
    [] k = "Mass" -> DoMass
    [] k = "SetMu" -> DoSetMu
GenNext == \E k \in {RandomElement(Kinds \ ((IF b.fs = None THEN {"Dos"} ELSE {})
                                            \cup (IF b.planes = None THEN {"Mass"} ELSE {})))} : Draw(k)
(* A finished history is emitted by one last step, so that it is written once. *)
Finish == Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<b, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars
Spec == Init /\ [][Next]_vars

(* C05 *)
NoStale == Fresh(b)
PlanesOfSurface == PlanesMatchSurface(b)
UnknownKeyChangesNothing == \A k \in Undeclared, v \in Vals : SetItem(b, k, v) = b
(* Recomputing gives what a new object with the same settings gives. *)
RecomputeIsFresh ==
  \A x \in Epss : /\ RunBand(b, x).fs = RunBand(NewBand(b), x).fs
                  /\ RunBand(b, x).planes = RunBand(NewBand(b), x).planes
                  /\ RunBand(b, x).fill = RunBand(NewBand(b), x).fill
(* Settings change only through the calls that set them. *)
SettingsOnlyBySetters ==
  [][(b'.params # b.params \/ b'.scale # b.scale) =>
       ~(\E x \in Epss : b' = Discretize(b, x) \/ b' = RunBand(b, x))]_vars

InitialMarch ==
  LET ms == SelectSeq(hist, LAMBDA e : e.ev = "SetMarch") IN IF ms = <<>> THEN b.march ELSE ~ms[1].val
Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([init |-> InitialMarch, hist |-> hist]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
