------------------------------ MODULE Routing -------------------------------
(* Where the free parameters of a fit live.  A material is                   *)
(* [g |-> general settings, b |-> band parameters, s |-> scattering          *)
(* parameters] (name -> value); a table gives the material of every          *)
(* temperature and band; a label is <<temperature or "all", band, name>>.    *)
EXTENDS Integers, Sequences, SequencesExt

Put(m, name, v) ==
  IF name \in DOMAIN m.g THEN [m EXCEPT !.g[name] = v]
  ELSE IF name \in DOMAIN m.b THEN [m EXCEPT !.b[name] = v]
  ELSE IF name \in DOMAIN m.s THEN [m EXCEPT !.s[name] = v]
  ELSE m
Targets(label, temps) == IF label[1] = "all" THEN temps ELSE <<label[1]>>
PutAt(tab, label, temps, v) ==
  FoldLeft(LAMBDA t, T : [t EXCEPT ![T][label[2]] = Put(@, label[3], v)], tab, Targets(label, temps))
Route(tab, temps, labels, x) ==
  FoldLeft(LAMBDA t, i : PutAt(t, labels[i], temps, x[i]), tab, [i \in 1..Len(labels) |-> i])
=============================================================================
