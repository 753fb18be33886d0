------------------------------ MODULE TransObj ------------------------------
(* Life cycle of a transport calculation.  Settings: field amplitude and     *)
(* angles, temperature, numbers of times and energies, cut-off, scattering   *)
(* (ScatObj) and the band parameters of the band inside.  Every derived      *)
(* quantity carries the stamp of the settings it was computed with: the      *)
(* field vector, the thermal window, the surface the band carries, the time  *)
(* grid and the results.  Transitions are functions (see BandObj).           *)
EXTENDS ScatObj, Integers, RealOps

Absent == [none |-> TRUE]

(* Deliberate deviations: a model with one of them FALSE must violate the    *)
(* invariants of MC_Transport.                                               *)
FieldFollowsAngles  == TRUE   \* the angle setters refresh the field vector
WindowFollowsT      == TRUE   \* the temperature setter refreshes the window
WindowFollowsCount  == TRUE   \* so does the number of energies
RunResetsGrid       == TRUE   \* a run computes its own time grid
CountRefreshesGrid  == TRUE   \* the step-count setter refreshes an existing grid
RunEndsAtFermi      == TRUE   \* a run at T > 0 leaves the band at the Fermi level

FieldKeys  == {"Bamp", "Btheta", "Bphi"}
WindowKeys == {"T", "N_epsilon", "dfdE_cut_percent"}
TransKeys  == FieldKeys \cup WindowKeys \cup {"N_time"}

FieldStamp(set)  == [k \in FieldKeys |-> set[k]]
WindowStamp(set) == [k \in WindowKeys |-> set[k]]
Cold(set)        == REq(set["T"], 0)
FermiStamp(t)    == [band |-> t.band, at |-> "fermi"]
GridStamp(t)     == [scat |-> t.scat, surf |-> t.surf, n |-> t.set["N_time"]]

(* set: TransKeys -> value; the band carries its Fermi surface. *)
NewTrans(set, scat, band) ==
  [set |-> set, scat |-> scat, band |-> band, surf |-> [band |-> band, at |-> "fermi"],
   bvec |-> FieldStamp(set), win |-> WindowStamp(set), grid |-> Absent, res |-> Absent]

SetKey(t, key, val) ==
  LET u == [t EXCEPT !.set[key] = val] IN
  CASE key \in FieldKeys ->
         IF FieldFollowsAngles \/ key = "Bamp" THEN [u EXCEPT !.bvec = FieldStamp(u.set)] ELSE u
    [] key = "T" -> IF WindowFollowsT THEN [u EXCEPT !.win = WindowStamp(u.set)] ELSE u
    [] key = "N_epsilon" -> IF WindowFollowsCount THEN [u EXCEPT !.win = WindowStamp(u.set)] ELSE u
    [] key = "dfdE_cut_percent" -> [u EXCEPT !.win = WindowStamp(u.set)]
    [] key = "N_time" -> IF CountRefreshesGrid /\ t.grid # Absent
                         THEN [u EXCEPT !.grid = [t.grid EXCEPT !.n = val]] ELSE u
SetScat(t, e)     == [t EXCEPT !.scat = ScatWrite(t.scat, e)]
(* Setting a band parameter erases the surface; it must be computed again.   *)
SetBand(t, band)  == [t EXCEPT !.band = band, !.surf = Absent]
Rediscretize(t)   == [t EXCEPT !.surf = FermiStamp(t)]
(* Direct assignment of the field vector, figures, diagnostics: nothing.     *)
Refused(t) == t
Observed(t) == t

(* What a run computes, from the derived quantities it actually uses ...     *)
Computed(t, grid) ==
  [bvec |-> t.bvec, scat |-> t.scat, surf |-> t.surf, grid |-> grid, T |-> t.set["T"],
   win |-> IF Cold(t.set) THEN Absent ELSE t.win]
Run(t) ==
  LET grid == IF RunResetsGrid \/ t.grid = Absent THEN GridStamp(t) ELSE t.grid IN
  [t EXCEPT !.grid = grid, !.res = Computed(t, grid),
            !.surf = IF ~Cold(t.set) /\ ~RunEndsAtFermi THEN [band |-> t.band, at |-> "last energy"] ELSE @]
(* ... and what a new object with the same settings would.                   *)
Wanted(t) == LET n == NewTrans(t.set, t.scat, t.band) IN Computed(n, GridStamp(n))
=============================================================================
