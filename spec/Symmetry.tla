------------------------------ MODULE Symmetry ------------------------------
(* Transformations of the settings of a conductivity calculation and what    *)
(* each does to the tensor.  A law is [f, transposed, turns, zones]: the new *)
(* tensor is s^f z^zones times the original, transposed or not, and turned   *)
(* by quarter turns about c; s is the scale factor, z the factor of zones.   *)
EXTENDS Integers, Sequences

Identity == [f |-> 0, transposed |-> FALSE, turns |-> 0, zones |-> 0]

(* What a transformation (scale factor s; exponents count powers of s) does  *)
(* to the settings: exponents of rates, field, energy scale and lattice, the *)
(* sign of the field, quarter turns of the field, powers of the zones.       *)
NoChange == [rates |-> 0, field |-> 0, energy |-> 0, lattice |-> 0, sign |-> 1, turns |-> 0, zones |-> 0]

Kinds == {"Reverse", "Quarter", "RatesField", "EnergyRates", "LatticeField", "Energy", "Rates", "Zones"}
\* k: +1 multiply by s, -1 divide
Effect(set, kind, k) ==
  CASE kind = "Reverse"      -> [set EXCEPT !.sign = -@]
    [] kind = "Quarter"      -> [set EXCEPT !.turns = (@ + k + 4) % 4]
    [] kind = "RatesField"   -> [set EXCEPT !.rates = @ + k, !.field = @ + k]
    [] kind = "EnergyRates"  -> [set EXCEPT !.rates = @ + k, !.energy = @ + k]
    [] kind = "LatticeField" -> [set EXCEPT !.lattice = @ + k, !.field = @ - 2 * k]
    [] kind = "Energy"       -> [set EXCEPT !.energy = @ + k]
    [] kind = "Rates"        -> [set EXCEPT !.rates = @ + k]
    [] kind = "Zones"        -> [set EXCEPT !.zones = @ + k]
Law(law, kind, k) ==
  CASE kind = "Reverse"      -> [law EXCEPT !.transposed = ~@]
    [] kind = "Quarter"      -> [law EXCEPT !.turns = (@ + k + 4) % 4]
    [] kind = "RatesField"   -> [law EXCEPT !.f = @ - k]
    [] kind = "EnergyRates"  -> law
    [] kind = "LatticeField" -> [law EXCEPT !.f = @ - k]
    [] kind = "Energy"       -> [law EXCEPT !.f = @ + k]
    [] kind = "Rates"        -> [law EXCEPT !.f = @ - k]
    [] kind = "Zones"        -> [law EXCEPT !.zones = @ - k]

(* When each holds. *)
Applies(kind, hasField, fourFold) ==
  CASE kind = "Quarter" -> fourFold
    [] kind \in {"Energy", "Rates"} -> ~hasField
    [] OTHER -> TRUE

(* The field as it enters: without field its exponent, sign and direction    *)
(* are no settings.                                                          *)
Seen(set, hasField) == IF hasField THEN set ELSE [set EXCEPT !.field = 0, !.sign = 1, !.turns = 0]
=============================================================================
