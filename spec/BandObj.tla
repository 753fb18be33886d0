------------------------------- MODULE BandObj -------------------------------
(* Life cycle of a band object.  Settings are the band parameters, the       *)
(* energy scale and the discretisation algorithm; every derived quantity     *)
(* carries the *stamp* of the settings it was computed with ("none" when     *)
(* absent).  A stamp determines the value: two quantities with equal stamps  *)
(* are equal, whatever the history that led there.                           *)
(*                                                                           *)
(* The transitions are functions from a band and the arguments of the call   *)
(* to the band after the call; design models (MC_...) choose the arguments,  *)
(* trace modules take them from the recorded event.                          *)
EXTENDS Integers, Sequences, TLC

None == [none |-> TRUE]      \* (TLC compares records of different shape)

(* Deliberate deviations found in the code as received (all repaired since): *)
(* a model with one of them set to FALSE must violate the invariants.        *)
MuSearchErases   == TRUE    \* chemical-potential search erases the surface
EraseCoversMass  == TRUE    \* the mass is erased with the rest
SwitchDropsPlanes == TRUE   \* per-plane data vanish when cubes are marched

NewBand(e) ==
  [model |-> e.model, a |-> e.a, b |-> e.b, c |-> e.c,
   scale |-> e.scale, params |-> e.params, march |-> e.march,
   fs |-> None, planes |-> None, fill |-> None, dos |-> None, mass |-> None]

Erased(b) ==
  [b EXCEPT !.fs = None, !.planes = None, !.fill = None, !.dos = None,
            !.mass = IF EraseCoversMass THEN None ELSE @]

(* Only parameters declared at construction can be written. *)
SetItem(b, key, val) ==
  IF key \in DOMAIN b.params
  THEN [Erased(b) EXCEPT !.params = [b.params EXCEPT ![key] = val]]
  ELSE b
SetParams(b, ps) == [Erased(b) EXCEPT !.params = ps]
SetScale(b, sc)  == [Erased(b) EXCEPT !.scale = sc]
SetMarch(b, m)   == [b EXCEPT !.march = m]

SurfaceStamp(b, eps) == [params |-> b.params, scale |-> b.scale, march |-> b.march, eps |-> eps]
FillStamp(b, mesh)   == [params |-> b.params, scale |-> b.scale, mesh |-> mesh]

Discretize(b, eps) ==
  [b EXCEPT !.fs = SurfaceStamp(b, eps),
            !.planes = IF b.march THEN SurfaceStamp(b, eps)
                       ELSE IF SwitchDropsPlanes THEN None ELSE @,
            !.mass = IF b.march THEN @ ELSE IF SwitchDropsPlanes THEN None ELSE @]
Fill(b, mesh) == [b EXCEPT !.fill = FillStamp(b, mesh)]
RunBand(b, eps) == Fill(Discretize(b, eps), "run")
Dos(b)  == [b EXCEPT !.dos = b.fs]
Mass(b) == [b EXCEPT !.mass = b.planes]
(* The search for a target doping ends at mu = val, with the filling known. *)
SetMu(b, val) ==
  IF MuSearchErases THEN Fill(SetItem(b, "mu", val), "default")
  ELSE Fill([b EXCEPT !.params = [b.params EXCEPT !["mu"] = val]], "default")
BandWrites == {"SetItem", "SetParams", "SetScale", "SetMarch", "Discretize",
               "Fill", "RunBand", "Dos", "Mass", "SetMu"}

BandWrite(b, e) ==
  CASE e.ev = "SetItem"    -> SetItem(b, e.key, e.val)
    [] e.ev = "SetParams"  -> SetParams(b, e.params)
    [] e.ev = "SetScale"   -> SetScale(b, e.val)
    [] e.ev = "SetMarch"   -> SetMarch(b, e.val)
    [] e.ev = "Discretize" -> Discretize(b, e.eps)
    [] e.ev = "Fill"       -> Fill(b, e.mesh)
    [] e.ev = "RunBand"    -> RunBand(b, e.eps)
    [] e.ev = "Dos"        -> Dos(b)
    [] e.ev = "Mass"       -> Mass(b)
    [] e.ev = "SetMu"      -> SetMu(b, e.val)

(* C05: whatever is present was computed for the current parameters. *)
Current(b, stamp) ==
  stamp = None \/ (stamp.params = b.params /\ stamp.scale = b.scale)
Fresh(b) == \A s \in {b.fs, b.planes, b.fill, b.dos, b.mass} : Current(b, s)
PlanesMatchSurface(b) == b.planes # None => b.planes = b.fs
=============================================================================
