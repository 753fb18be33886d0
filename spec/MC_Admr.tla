------------------------------- MODULE MC_Admr -------------------------------
(* Design model of an angle scan over several bands: the loops over azimuth, *)
(* polar angle and band with the field each band currently carries, repeated *)
(* scans, and settings changed in between (bands, azimuths, polar angles,    *)
(* normalisation angle, looking at or exporting the results).  A conductivity*)
(* is the stamp <<band, settings, phi, theta>>; a table entry the bag of     *)
(* stamps summed in it.  Dev names a deviation that must break an invariant. *)
(* Also generates the histories of C13 and C14.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS NBands, Vals, Phis, Thetas, Norms, Looks, MaxAngles, Dev, Generating, Depth
Absent == [none |-> TRUE]
Seqs(S) == UNION {{q \in [1..n -> S] : TRUE} : n \in 1..MaxAngles}

VARIABLES cs,       \* settings of every band
          phis, thetas, norm,
          pc, i, j, l, at, acc,   \* the loops; field each band carries; sum so far
          table, total, snap, hist, bound
vars == <<cs, phis, thetas, norm, pc, i, j, l, at, acc, table, total, snap, hist, bound>>
loops == <<i, j, l, acc>>

Pick(S) == CHOOSE x \in S : TRUE
Init == /\ cs = [b \in 1..NBands |-> Pick(Vals)]
        /\ phis = <<Pick(Phis)>> /\ thetas = <<Pick(Thetas)>> /\ norm = Pick(Norms)
        /\ pc = "idle" /\ i = 1 /\ j = 1 /\ l = 1 /\ acc = <<>>
        /\ at = [b \in 1..NBands |-> <<0, 0>>]
        /\ table = <<>> /\ total = <<>> /\ snap = Absent
        /\ hist = <<>> /\ bound \in IF Generating THEN 2..Depth ELSE {0}

Note(e) == /\ pc = "idle"
           /\ Generating => Len(hist) < bound
           /\ hist' = IF Generating THEN Append(hist, e) ELSE hist
           /\ UNCHANGED bound
Quiet == UNCHANGED <<pc, table, total, snap, at>> /\ UNCHANGED loops
SetBand == \E b \in 1..NBands, v \in Vals :
             Note([ev |-> "SetBand", band |-> b, val |-> v]) /\ cs' = [cs EXCEPT ![b] = v] /\ UNCHANGED <<phis, thetas, norm>> /\ Quiet
SetPhis == \E q \in IF Generating THEN {[n \in 1..RandomElement(1..(MaxAngles + 0 * Len(hist))) |-> RandomElement(Phis)]} ELSE Seqs(Phis) :
             Note([ev |-> "SetPhis", phis |-> q]) /\ phis' = q /\ UNCHANGED <<cs, thetas, norm>> /\ Quiet
SetThetas == \E q \in IF Generating THEN {[n \in 1..RandomElement(1..(MaxAngles + 0 * Len(hist))) |-> RandomElement(Thetas)]} ELSE Seqs(Thetas) :
             Note([ev |-> "SetThetas", thetas |-> q]) /\ thetas' = q /\ UNCHANGED <<cs, phis, norm>> /\ Quiet
SetNorm == \E x \in Norms : Note([ev |-> "SetNorm", val |-> x]) /\ norm' = x /\ UNCHANGED <<cs, phis, thetas>> /\ Quiet
\* looking, exporting: nothing changes
Look == \E x \in Looks : table # <<>> /\ Note([ev |-> "Look", what |-> x]) /\ UNCHANGED <<cs, phis, thetas, norm>> /\ Quiet

Scan == /\ Note([ev |-> "Scan"])
        /\ pc' = IF Generating THEN "idle" ELSE "loop"
        /\ i' = 1 /\ j' = 1 /\ l' = 1 /\ acc' = <<>>
        /\ table' = [p \in 1..Len(phis) |-> [t \in 1..Len(thetas) |-> <<>>]]
        /\ snap' = [cs |-> cs, phis |-> phis, thetas |-> thetas, norm |-> norm]
        /\ UNCHANGED <<cs, phis, thetas, norm, total, at>>
Stamp(b, a) == <<b, cs[b], a>>
Plus(bag, s) == IF s \in DOMAIN bag THEN [bag EXCEPT ![s] = @ + 1] ELSE (s :> 1) @@ bag
RunOne ==   \* set the field of band l, run it, add it
  /\ pc = "loop"
  /\ LET a == <<IF Dev = "PhiOfFirst" /\ l > 1 THEN at[l][1] ELSE phis[i], thetas[j]>>
         base == IF l = 1 /\ Dev # "KeepSum" THEN <<>> ELSE acc
         sum == Plus(base, Stamp(l, a))
     IN /\ at' = [at EXCEPT ![l] = a]
        /\ IF l < NBands
           THEN /\ acc' = sum /\ l' = l + 1 /\ UNCHANGED <<i, j, table, pc, total>>
           ELSE /\ acc' = IF Dev = "KeepSum" THEN sum ELSE <<>>
                /\ table' = [table EXCEPT ![i][j] = sum]
                /\ l' = 1
                /\ IF j < Len(thetas) THEN j' = j + 1 /\ UNCHANGED <<i, pc, total>>
                   ELSE /\ j' = 1
                        /\ IF i < Len(phis) THEN i' = i + 1 /\ UNCHANGED <<pc, total>>
                           ELSE /\ i' = 1 /\ pc' = "idle"
                                /\ total' = (IF Dev = "TotalsPileUp" THEN total ELSE <<>>) \o [b \in 1..NBands |-> <<b, cs[b]>>]
  /\ UNCHANGED <<cs, phis, thetas, norm, snap, hist, bound>>
Next == SetBand \/ SetPhis \/ SetThetas \/ SetNorm \/ Look \/ Scan \/ RunOne
Spec == Init /\ [][Next]_vars

Draw(k) == CASE k = 1 -> SetBand [] k = 2 -> SetPhis [] k = 3 -> SetThetas [] k = 4 -> SetNorm [] k = 5 -> Look [] OTHER -> Scan
GenNext == \E k \in {RandomElement({1, 2, 3, 4, 6, 7 + 0 * Len(hist)} \cup (IF table = <<>> THEN {} ELSE {5}))} : Draw(k)
Finish == pc = "idle" /\ Len(hist) = bound /\ bound' = -1
          /\ UNCHANGED <<cs, phis, thetas, norm, pc, i, j, l, at, acc, table, total, snap, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* C13 *)
Done == pc = "idle" /\ snap # Absent
EveryEntryIsTotal ==
  Done => \A p \in 1..Len(snap.phis), t \in 1..Len(snap.thetas) :
    table[p][t] = [s \in {<<b, snap.cs[b], <<snap.phis[p], snap.thetas[t]>>>> : b \in 1..NBands} |-> 1]
TotalIsOfThisScan == Done => total = [b \in 1..NBands |-> <<b, snap.cs[b]>>]
OnePerAngle == Done => Len(table) = Len(snap.phis) /\ \A p \in 1..Len(table) : Len(table[p]) = Len(snap.thetas)

Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([hist |-> hist]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
