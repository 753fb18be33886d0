------------------------------- MODULE MC_Diag --------------------------------
(* Diagnostics of a surface (density of states, cyclotron mass, omega_c tau) *)
(* along histories of settings, discretisations, runs and each other: each   *)
(* is a function of the surface and settings of the moment it is asked for,  *)
(* and asking changes nothing else.  Generator of the histories of C19.      *)
EXTENDS TransObj, Json, IOUtils, FiniteSets

CONSTANTS Vals, Params, ScatVals, Models, Bands, Kinds, Generating, Depth
MyFALSE == FALSE
SmallVals == [Bamp |-> {0, 1}, Btheta |-> {1, 2}, Bphi |-> {1}, T |-> {0, 1}, N_time |-> {1},
              N_epsilon |-> {1}, dfdE_cut_percent |-> {1}]
GenVals == [Bamp |-> {0, 1, 2, 3}, Btheta |-> 1..6, Bphi |-> 1..5, T |-> {0, 1, 2}, N_time |-> {1, 2},
            N_epsilon |-> {1, 2}, dfdE_cut_percent |-> {1, 2}]

(* Deliberate deviations: a model with one FALSE violates the invariants. *)
RatesOfNow      == TRUE   \* omega_c tau uses the lifetimes of the settings of now, not of the last run
PlanesOfSurface == TRUE   \* the mass averages over the planes of the surface, not of the mesh setting
AskingOnlyLooks == TRUE   \* asking for the density of states leaves the surface alone

VARIABLES t, march, planes, nz, dg, hist, bound
\* planes: the number of planes of the surface (Absent for cubes); nz: the setting
vars == <<t, march, planes, nz, dg, hist, bound>>
Pick(S) == CHOOSE x \in S : TRUE
None == [dos |-> Absent, mass |-> Absent, omega |-> Absent]

Init ==
  /\ t = NewTrans([k \in TransKeys |-> Pick(Vals[k])], NewScat({Pick(Models)}, [p \in Params |-> Pick(ScatVals)]), Pick(Bands))
  /\ march \in BOOLEAN /\ nz = 1 /\ planes = IF march THEN [n |-> 1] ELSE Absent
  /\ dg = None /\ hist = <<>> /\ bound \in IF Generating THEN 5..Depth ELSE {0}

Log(e) == /\ Generating => Len(hist) < bound
          /\ hist' = IF Generating THEN Append(hist, e) ELSE hist
          /\ UNCHANGED bound
SetOf(ks) == \E k \in ks : \E v \in Vals[k] :
  t' = SetKey(t, k, v) /\ Log([ev |-> "Set", key |-> k, val |-> v]) /\ UNCHANGED <<march, planes, nz, dg>>
Scat == \/ \E p \in Params, v \in ScatVals : LET e == [ev |-> "SetAttr", key |-> p, val |-> v] IN
             t' = SetScat(t, e) /\ Log(e) /\ UNCHANGED <<march, planes, nz, dg>>
        \/ \E d \in [Params -> ScatVals] : LET e == [ev |-> "SetDict", params |-> d] IN
             t' = SetScat(t, e) /\ Log(e) /\ UNCHANGED <<march, planes, nz, dg>>
SelectModels == \E ms \in SUBSET Models \ {{}} : LET e == [ev |-> "SetModels", models |-> ms] IN
             t' = SetScat(t, e) /\ Log(e) /\ UNCHANGED <<march, planes, nz, dg>>
Band == \E x \in Bands : /\ t' = SetBand(t, x) /\ planes' = Absent /\ dg' = [dg EXCEPT !.dos = Absent, !.mass = Absent]
                         /\ Log([ev |-> "SetBand", band |-> x]) /\ UNCHANGED <<march, nz>>
March == march' = ~march /\ Log([ev |-> "SetMarch", val |-> ~march]) /\ UNCHANGED <<t, planes, nz, dg>>
Planes == \E n \in {1, 2} : nz' = n /\ Log([ev |-> "SetPlanes", val |-> n]) /\ UNCHANGED <<t, march, planes, dg>>
\* (discretising again keeps the diagnostics of the earlier surface until they are asked for again)
Redo == /\ t' = Rediscretize(t) /\ planes' = (IF march THEN [n |-> nz] ELSE Absent)
        /\ dg' = IF march THEN dg ELSE [dg EXCEPT !.mass = Absent]
        /\ Log([ev |-> "Rediscretize"]) /\ UNCHANGED <<march, nz>>
\* a run at T > 0 discretises the surface again, by the algorithm and mesh of now
RunNow == /\ t.surf # Absent /\ t' = Run(t)
          /\ planes' = (IF Cold(t.set) THEN planes ELSE IF march THEN [n |-> nz] ELSE Absent)
          /\ dg' = (IF Cold(t.set) \/ march THEN dg ELSE [dg EXCEPT !.mass = Absent])
          /\ Log([ev |-> "Run"]) /\ UNCHANGED <<march, nz>>

DosOf == [surf |-> t.surf]
MassOf == [surf |-> t.surf, over |-> IF PlanesOfSurface THEN planes ELSE [n |-> nz]]
OmegaOf == [surf |-> t.surf, B |-> t.set["Bamp"],
            scat |-> IF RatesOfNow \/ t.res = Absent THEN t.scat ELSE t.res.scat]
Dos == /\ t.surf # Absent /\ dg' = [dg EXCEPT !.dos = DosOf] /\ Log([ev |-> "Dos"])
       /\ t' = (IF AskingOnlyLooks THEN t ELSE [t EXCEPT !.surf = Absent]) /\ UNCHANGED <<march, planes, nz>>
Mass == /\ t.surf # Absent /\ planes # Absent /\ dg' = [dg EXCEPT !.mass = MassOf] /\ Log([ev |-> "Mass"])
        /\ UNCHANGED <<t, march, planes, nz>>
Omega == /\ t.surf # Absent /\ dg' = [dg EXCEPT !.omega = OmegaOf] /\ Log([ev |-> "Omega"]) /\ UNCHANGED <<t, march, planes, nz>>

Next == SetOf(TransKeys) \/ Scat \/ SelectModels \/ Band \/ March \/ Planes \/ Redo \/ RunNow \/ Dos \/ Mass \/ Omega
Spec == Init /\ [][Next]_vars

Draw(k) ==
  CASE k = "Field" -> SetOf(FieldKeys) [] k = "Window" -> SetOf(WindowKeys) [] k = "Scat" -> Scat [] k = "Models" -> SelectModels
    [] k = "Band" -> Band [] k = "March" -> March [] k = "Planes" -> Planes [] k = "Redo" -> Redo [] k = "Run" -> RunNow
    [] k = "Dos" -> Dos [] k = "Mass" -> Mass [] k = "Omega" -> Omega
GenNext == \E k \in {IF t.surf = Absent THEN "Redo" ELSE RandomElement(Kinds \ (IF planes = Absent THEN {"Mass"} ELSE {}))} : Draw(k)
Finish == Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<t, march, planes, nz, dg, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* A diagnostic just asked for is that of the surface, field and rates of now. *)
Fresh ==
  [][ /\ (dg'.dos # dg.dos /\ dg'.dos # Absent) => dg'.dos = [surf |-> t.surf]
      /\ (dg'.mass # dg.mass /\ dg'.mass # Absent) => dg'.mass = [surf |-> t.surf, over |-> planes]
      /\ (dg'.omega # dg.omega /\ dg'.omega # Absent) => dg'.omega = [surf |-> t.surf, B |-> t.set["Bamp"], scat |-> t.scat] ]_vars
(* Asking changes nothing but the diagnostic itself. *)
LooksOnly == [][dg' # dg /\ dg'.dos # Absent /\ dg'.dos # dg.dos => UNCHANGED <<t, march, planes, nz>>]_vars
(* No diagnostic of other band settings survives on the band. *)
NoneStale == /\ dg.dos # Absent => dg.dos.surf.band = t.band
             /\ dg.mass # Absent => dg.mass.surf.band = t.band
InitialMarch ==
  LET ms == SelectSeq(hist, LAMBDA e : e.ev = "SetMarch") IN IF ms = <<>> THEN march ELSE ~ms[1].val
Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([init |-> [march |-> InitialMarch], hist |-> hist]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
