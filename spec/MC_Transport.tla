----------------------------- MODULE MC_Transport -----------------------------
(* Design model of one transport calculation under every sequence of         *)
(* setters, runs, figures and band changes; generator of the histories that  *)
(* C08, C10 and C11 replay into the code.                                    *)
EXTENDS TransObj, Json, IOUtils, FiniteSets

CONSTANTS Vals,      \* setting -> set of values
          Params, ScatVals, Models,
          Bands, Figures,
          Kinds, Generating, Depth
MyFALSE == FALSE
SmallVals == [Bamp |-> {0, 1}, Btheta |-> {1, 2}, Bphi |-> {1}, T |-> {0, 1}, N_time |-> {1, 2},
              N_epsilon |-> {1, 2}, dfdE_cut_percent |-> {1}]
GenVals == [Bamp |-> {0, 1, 2, 3}, Btheta |-> 1..6, Bphi |-> 1..5, T |-> {0, 1, 2}, N_time |-> {1, 2, 3},
            N_epsilon |-> {1, 2, 3}, dfdE_cut_percent |-> {1, 2}]
FieldVals == [GenVals EXCEPT !.T = {0}]
ThermalVals == [GenVals EXCEPT !.Bamp = {0, 1}, !.T = {0, 1, 2, 3}, !.Btheta = {1, 2}, !.Bphi = {1, 2}]

VARIABLES t, ran, hist, bound   \* ran: the object as it was when last run, with what it should give
vars == <<t, ran, hist, bound>>

Pick(S) == CHOOSE x \in S : TRUE
Init ==
  /\ t = NewTrans([k \in TransKeys |-> Pick(Vals[k])],
                  NewScat({Pick(Models)}, [p \in Params |-> Pick(ScatVals)]), Pick(Bands))
  /\ ran = Absent /\ hist = <<>> /\ bound \in IF Generating THEN 4..Depth ELSE {0}

Do(e, u) == /\ Generating => Len(hist) < bound
            /\ t' = u
            /\ hist' = IF Generating THEN Append(hist, e) ELSE hist
            /\ UNCHANGED <<ran, bound>>
DoSet == \E k \in TransKeys : \E v \in Vals[k] : Do([ev |-> "Set", key |-> k, val |-> v], SetKey(t, k, v))
SetOf(ks) == \E k \in ks : \E v \in Vals[k] : Do([ev |-> "Set", key |-> k, val |-> v], SetKey(t, k, v))
DoScat ==
  \/ \E p \in Params, v \in ScatVals : LET e == [ev |-> "SetAttr", key |-> p, val |-> v] IN Do(e, SetScat(t, e))
  \/ \E d \in [Params -> ScatVals] : LET e == [ev |-> "SetDict", params |-> d] IN Do(e, SetScat(t, e))
DoModels == \E ms \in SUBSET Models \ {{}} : LET e == [ev |-> "SetModels", models |-> ms] IN Do(e, SetScat(t, e))
DoBand == \E x \in Bands : Do([ev |-> "SetBand", band |-> x], SetBand(t, x))
DoRedo == Do([ev |-> "Rediscretize"], Rediscretize(t))
DoAssign == Do([ev |-> "AssignB"], Refused(t))
DoFigure == \E f \in Figures : (t.surf # Absent /\ t.res # Absent) /\ Do([ev |-> "Figure", fig |-> f], Observed(t))
DoRun == /\ t.surf # Absent
         /\ Generating => Len(hist) < bound
         /\ t' = Run(t)
         /\ ran' = [want |-> Wanted(t), set |-> t.set]
         /\ hist' = IF Generating THEN Append(hist, [ev |-> "Run"]) ELSE hist
         /\ UNCHANGED bound
Next == DoSet \/ DoScat \/ DoModels \/ DoBand \/ DoRedo \/ DoAssign \/ DoFigure \/ DoRun
Spec == Init /\ [][Next]_vars

(* Generated histories draw the kind of call first.  A band change is        *)
(* followed by discretising the band again.                                  *)
Draw(k) ==
  CASE k = "Field" -> SetOf(FieldKeys) [] k = "Window" -> SetOf(WindowKeys) [] k = "Count" -> SetOf({"N_time"})
    [] k = "Scat" -> DoScat [] k = "Models" -> DoModels [] k = "Band" -> DoBand [] k = "Assign" -> DoAssign
    [] k = "Redo" -> DoRedo [] k = "Figure" -> DoFigure [] k = "Run" -> DoRun
GenNext == \E k \in {IF t.surf = Absent THEN "Redo"
                     ELSE RandomElement(Kinds \ (IF t.res = Absent THEN {"Figure"} ELSE {}))} : Draw(k)
Finish == Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<t, ran, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* C08 *)
FieldCurrent == t.bvec = FieldStamp(t.set)
GridCurrent  == (t.grid # Absent /\ ran # Absent) => t.grid.n = t.set["N_time"]
(* C10 *)
WindowCurrent == ~Cold(t.set) => t.win = WindowStamp(t.set)
EndsAtFermi   == t.surf # Absent => t.surf.at = "fermi"
(* C11: the results of a run are those of a new object with its settings,    *)
(* running again changes nothing, and nothing else touches them.             *)
RunIsFresh  == ran # Absent => t.res = ran.want
RunTwice    == t.surf # Absent => Run(Run(t)) = Run(t)
OnlyRunsChangeResults == [][t'.res # t.res => ran' # Absent /\ t'.res = ran'.want]_vars

Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([hist |-> hist]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
