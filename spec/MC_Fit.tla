------------------------------- MODULE MC_Fit -------------------------------
(* Design model of a fit evaluated by workers.  Every worker owns a copy of  *)
(* the table of parameters and of the simulated objects, kept from one       *)
(* evaluation to the next; candidates are assigned to workers in any order;  *)
(* at the end the best candidate is put back in the caller's object.  Dev    *)
(* names a deviation that must break an invariant.  Also generates the       *)
(* histories of C15 and C18 (declarations drawn at random first).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Routing

CONSTANTS Temps, Bands, Names, Vals, Workers, MaxEvals, MaxLabels, Dev, Generating, Depth
Absent == [none |-> TRUE]
\* one name of every kind is enough: general, band, scattering
Material == [g |-> [x \in {n \in Names : n \in {"Bamp", "a", "energy_scale", "T", "c"}} |-> 9],
             b |-> [x \in {n \in Names : n \in {"tz", "mu", "tp"}} |-> 9],
             s |-> [x \in {n \in Names : n \in {"gamma_0", "gamma_k", "power"}} |-> 9]]
Table0 == [T \in Temps |-> [d \in Bands |-> Material]]
TempSeq == SetToSeq(Temps)
Labels == {<<T, d, n>> : T \in Temps \cup {"all"}, d \in Bands, n \in Names}
Clash(x, y) == x[2] = y[2] /\ x[3] = y[3] /\ (x[1] = y[1] \/ x[1] = "all" \/ y[1] = "all")

VARIABLES labels, ready, tab, sim, seen, master, done, hist, bound
vars == <<labels, ready, tab, sim, seen, master, done, hist, bound>>

Init == /\ labels = <<>> /\ ready = FALSE
        /\ tab = [w \in Workers |-> Table0] /\ sim = [w \in Workers |-> Table0]
        /\ seen = {} /\ master = Table0 /\ done = FALSE
        /\ hist = <<>> /\ bound \in IF Generating THEN 3..Depth ELSE {0}

Note(e) == /\ Generating => Len(hist) < bound
           /\ hist' = IF Generating THEN Append(hist, e) ELSE hist
           /\ UNCHANGED bound
Declare == /\ ~ready /\ Len(labels) < MaxLabels
           /\ \E x \in Labels : (\A i \in 1..Len(labels) : ~Clash(x, labels[i])) /\ labels' = Append(labels, x)
           /\ UNCHANGED <<ready, tab, sim, seen, master, done, hist, bound>>
Close == ~ready /\ labels # <<>> /\ ready' = TRUE /\ UNCHANGED <<labels, tab, sim, seen, master, done, hist, bound>>

\* what the code with deviation Dev makes of a candidate in the table t
Apply(t, x) ==
  IF Dev = "ZeroIgnored"
  THEN FoldLeft(LAMBDA u, i : IF x[i] = 0 THEN u ELSE PutAt(u, labels[i], TempSeq, x[i]), t, [i \in 1..Len(labels) |-> i])
  ELSE IF Dev = "FirstTempOnly"
  THEN FoldLeft(LAMBDA u, i : PutAt(u, IF labels[i][1] = "all" THEN <<TempSeq[1], labels[i][2], labels[i][3]>> ELSE labels[i], TempSeq, x[i]),
                t, [i \in 1..Len(labels) |-> i])
  ELSE IF Dev = "SharedTables"
  THEN FoldLeft(LAMBDA u, i : PutAt(u, <<"all", labels[i][2], labels[i][3]>>, TempSeq, x[i]), t, [i \in 1..Len(labels) |-> i])
  ELSE Route(t, TempSeq, labels, x)
\* what is simulated: everything, or (deviation) the settings the objects were built with
Simulate(s, t) ==
  IF Dev = "GeneralStays" THEN [T \in Temps |-> [d \in Bands |-> [t[T][d] EXCEPT !.g = s[T][d].g]]] ELSE t
Cands == [1..Len(labels) -> Vals]
Eval == \E w \in Workers, x \in IF Generating THEN {[i \in 1..Len(labels) |-> RandomElement(Vals \cup {0 * Len(hist)})]} ELSE Cands :
          /\ ready /\ ~done /\ (Generating \/ Cardinality(seen) < MaxEvals)
          /\ Note([ev |-> "Eval", worker |-> w, x |-> x])
          /\ LET t == Apply(tab[w], x)  s == Simulate(sim[w], t) IN
             /\ tab' = [tab EXCEPT ![w] = t] /\ sim' = [sim EXCEPT ![w] = s]
             /\ seen' = IF Generating THEN seen ELSE seen \cup {<<x, s>>}
          /\ UNCHANGED <<labels, ready, master, done>>
\* another evaluation of the current parameters
Again == \E w \in Workers : ready /\ Note([ev |-> "Again", worker |-> w]) /\ UNCHANGED <<labels, ready, tab, sim, seen, master, done>>
\* merit of a candidate: any injective function of it
Merit(x) == FoldLeft(LAMBDA acc, v : 10 * acc + ((7 * v + 3) % 10), 0, x)
Best == CHOOSE y \in seen : \A z \in seen : Merit(y[1]) <= Merit(z[1])
\* the search ends: the best candidate is put back in the caller's object
Export == /\ ready /\ ~Generating /\ ~done /\ seen # {} /\ done' = TRUE
          /\ \E y \in IF Dev = "ExportAny" THEN seen ELSE {Best} : master' = Apply(master, y[1])
          /\ UNCHANGED <<labels, ready, tab, sim, seen, hist, bound>>
Next == Declare \/ Close \/ Eval \/ Again \/ Export
Spec == Init /\ [][Next]_vars

GenNext == \E k \in {RandomElement(1..(8 + 0 * Len(hist) + 0 * Len(labels)))} :
             IF ~ready THEN (IF k <= 6 /\ Len(labels) < MaxLabels THEN Declare ELSE IF labels # <<>> THEN Close ELSE Declare)
             ELSE IF k <= 6 THEN Eval ELSE Again
Finish == ready /\ Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<labels, ready, tab, sim, seen, master, done, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* C15, C18 *)
SimulatedIsCandidate == \A y \in seen : y[2] = Route(Table0, TempSeq, labels, y[1])
SameCandidateSameResult == \A y, z \in seen : y[1] = z[1] => y[2] = z[2]
(* C15: nothing that was not declared ever moves *)
Declared(T, d, n) == \E i \in 1..Len(labels) : labels[i][2] = d /\ labels[i][3] = n /\ labels[i][1] \in {T, "all"}
Same(m, m0, T, d, part) == \A n \in DOMAIN m0 : ~Declared(T, d, n) => m[n] = m0[n]
NothingElseMoves ==
  \A w \in Workers : \A T \in Temps, d \in Bands :
     LET m == tab[w][T][d] IN
     Same(m.g, Material.g, T, d, "g") /\ Same(m.b, Material.b, T, d, "b") /\ Same(m.s, Material.s, T, d, "s")
(* C18: what is exported is the best of the evaluated candidates and nothing else *)
ExportIsBest == IF done THEN master = Route(Table0, TempSeq, labels, Best[1]) ELSE master = Table0

Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([hist |-> hist, labels |-> labels]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
