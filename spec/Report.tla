------------------------------- MODULE Report -------------------------------
(* What a finished scan writes: the file name and the exported table.        *)
(* c describes the scan: p (total hole doping), T, B, scale (energy scale),  *)
(* params (name -> value of the first band), names (of the bands), res,      *)
(* phis, thetas, rhozz.                                                      *)
EXTENDS RealOps, Text, Integers, Sequences, SequencesExt, FiniteSets

\* parameter names without the unit hopping, in name order
Names(c) == SSort(SetToSeq(DOMAIN c.params \ {"t"}))
Reconstructed(c) == "M" \in DOMAIN c.params
\* reconstructed bands list M a second time
Listed(c) == Names(c) \o (IF Reconstructed(c) THEN <<"M">> ELSE <<>>)

BaseName(c) ==
  LET ps == Listed(c)
      parts == <<"p" \o RFixed(c.p, 3), "T" \o RFixed(c.T, 0), "B" \o RFixed(c.B, 0), "t" \o RFixed(c.scale, 1)>>
               \o [i \in 1..Len(ps) |-> ps[i] \o RFixed(c.params[ps[i]], 3)] \o c.names
  IN (IF Reconstructed(c) THEN "AF" ELSE "") \o SJoin(parts, "_")
DefaultName(c, ext) == "Rzz_" \o BaseName(c) \o ext
Path(folder, filename, c, ext) ==
  (IF folder = "" THEN "" ELSE folder \o "/") \o (IF filename = "none" THEN DefaultName(c, ext) ELSE filename)

Labels(c) == <<"theta">> \o [i \in 1..Len(c.phis) |-> "rho"] \o <<"B", "t">> \o Listed(c) \o <<"res_x", "res_y", "res_z">>

Printed(cell, v) == RClose(cell, v, "6e-8", 0)            \* eight significant digits
\* cell is v to n-th part of a unit (either neighbour of a tie)
Rounded(cell, v, n) ==
  LET x == RMul(cell, n) IN
  /\ RClose(x, RFloor(RAdd(x, "0.5")), "1e-7", "1e-9")
  /\ RClose(cell, v, "1e-7", RDiv("0.500001", n))
Cells(c, j) ==   \* does row j of the table hold what its columns say?
  LET ps == Listed(c)  n == Len(c.phis)  row == c.rows[j] IN
  /\ Len(row) = 1 + n + 2 + Len(ps) + 3
  /\ Printed(row[1], c.thetas[j])
  /\ \A i \in 1..n : Printed(row[1 + i], c.rhozz[i][j])
  /\ Printed(row[n + 2], c.B)
  /\ Rounded(row[n + 3], c.scale, 1)
  /\ \A i \in 1..Len(ps) : Rounded(row[n + 3 + i], c.params[ps[i]], 1000)
  /\ \A i \in 1..3 : REq(row[n + 3 + Len(ps) + i], c.res[i])
=============================================================================
