------------------------------- MODULE ScatObj -------------------------------
(* Life cycle of the scattering settings of a transport calculation: the     *)
(* value of every rate parameter is the one last set, whether as an          *)
(* attribute or by assigning a dictionary (which sets the parameters it      *)
(* names); the selected models are those last selected.                      *)
EXTENDS TLC, Sequences

NewScat(models, params) == [models |-> models, params |-> params]
SetAttr(s, p, v)   == [s EXCEPT !.params = (p :> v) @@ @]
SetDict(s, d)      == [s EXCEPT !.params = d @@ @]
SetModels(s, ms)   == [s EXCEPT !.models = ms]
ScatWrites == {"SetAttr", "SetDict", "SetModels"}
ScatWrite(s, e) ==
  CASE e.ev = "SetAttr"   -> SetAttr(s, e.key, e.val)
    [] e.ev = "SetDict"   -> SetDict(s, e.params)
    [] e.ev = "SetModels" -> SetModels(s, e.models)
=============================================================================
