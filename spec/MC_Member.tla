----------------------------- MODULE MC_Member ------------------------------
(* Design model of the single-temperature and series fits: one record (the   *)
(* member), one band object living through all evaluations, conductivities   *)
(* rebuilt from the record at every evaluation, records saved to a file and  *)
(* loaded into another object that was built from other settings.  Dev names *)
(* a deviation that must break an invariant.  Also generates the histories   *)
(* of C17.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Routing

CONSTANTS Names, Vals, MaxLabels, MaxSteps, Dev, Generating, Depth
Absent == [none |-> TRUE]
GeneralNames == {"Bamp", "energy_scale", "a", "c", "T"}
BandNames == {"tz", "mu", "tp"}
OfBand == {"energy_scale", "a", "c"}     \* general settings that live on the band object
Rec(v) == [g |-> [x \in Names \cap GeneralNames |-> v], b |-> [x \in (Names \cap BandNames) \cup {"mu"} |-> v],
           s |-> [x \in Names \ (GeneralNames \cup BandNames) |-> v]]
Member0 == Rec(9)
Other == Rec(8)          \* settings of the object the record is loaded into
BandOf(m) == [b |-> m.b, g |-> [x \in DOMAIN m.g \cap OfBand |-> m.g[x]]]

VARIABLES labels, ready, imposed, member, band, file, sim, want, hist, steps, bound
vars == <<labels, ready, imposed, member, band, file, sim, want, hist, steps, bound>>

Init == /\ labels = <<>> /\ ready = FALSE /\ imposed \in BOOLEAN
        /\ member = Member0 /\ band = BandOf(Member0)
        /\ file = Absent /\ sim = Absent /\ want = Absent
        /\ hist = <<>> /\ steps = 0 /\ bound \in IF Generating THEN 2..Depth ELSE {0}
Note(e) == /\ ready /\ (Generating => Len(hist) < bound) /\ (~Generating => steps < MaxSteps)
           /\ hist' = (IF Generating THEN Append(hist, e) ELSE <<>>) /\ steps' = steps + 1 /\ UNCHANGED <<labels, ready, imposed, bound>>
Declare == /\ ~ready /\ Len(labels) < MaxLabels
           /\ \E n \in Names : (\A i \in 1..Len(labels) : labels[i] # n) /\ labels' = Append(labels, n)
           /\ UNCHANGED <<ready, imposed, member, band, file, sim, want, hist, steps, bound>>
Close == ~ready /\ labels # <<>> /\ ready' = TRUE /\ UNCHANGED <<labels, imposed, member, band, file, sim, want, hist, steps, bound>>

PutAll(m, x) == FoldLeft(LAMBDA u, i : Put(u, labels[i], x[i]), m, [i \in 1..Len(labels) |-> i])
\* chemical potential that gives the imposed doping to a band: depends on its other settings
\* (any injective function of them)
Other1(b, n) == IF n \in DOMAIN b.b THEN b.b[n] ELSE IF n \in DOMAIN b.g THEN b.g[n] ELSE 0
MuOf(b) == FoldLeft(LAMBDA acc, n : 10 * acc + Other1(b, n), 1, <<"tz", "tp", "energy_scale", "a", "c">>)
Impose(m) == IF imposed THEN [m EXCEPT !.b.mu = MuOf(BandOf(m))] ELSE m
\* the band object receives the declared names, then perhaps the imposed doping
Push(bd, m) ==
  LET declared == {labels[i] : i \in 1..Len(labels)} IN
  [b |-> [n \in DOMAIN bd.b |-> IF n \in declared THEN m.b[n] ELSE bd.b[n]],
   g |-> [n \in DOMAIN bd.g |-> IF n \in declared /\ Dev # "BandSettingsStay" THEN m.g[n] ELSE bd.g[n]]]
Run(m, bd) ==    \* generate the objects of record m; the record learns the imposed mu
  LET b1 == Push(bd, m)
      b2 == IF imposed THEN [b1 EXCEPT !.b.mu = MuOf(b1)] ELSE b1
      m2 == IF imposed /\ Dev # "MuNotRecorded" THEN [m EXCEPT !.b.mu = b2.b.mu] ELSE m
  IN [member |-> m2, band |-> b2, sim |-> [band |-> b2, rest |-> [g |-> m2.g, s |-> m2.s]]]
Sim0(m) == [band |-> BandOf(m), rest |-> [g |-> m.g, s |-> m.s]]
Eval == \E x \in IF Generating THEN {[i \in 1..Len(labels) |-> RandomElement(Vals \cup {0 * Len(hist)})]} ELSE [1..Len(labels) -> Vals] :
          /\ Note([ev |-> "Eval", x |-> x])
          /\ LET m == IF Dev = "ScatteringIgnored"
                      THEN FoldLeft(LAMBDA u, i : IF labels[i] \in DOMAIN u.s THEN u ELSE Put(u, labels[i], x[i]), member, [i \in 1..Len(labels) |-> i])
                      ELSE PutAll(member, x)
                 r == Run(m, band)
             IN /\ member' = r.member /\ band' = r.band /\ sim' = r.sim
                /\ want' = [x |-> x, sim |-> Sim0(Impose(PutAll(Member0, x)))]
          /\ UNCHANGED file
Save == /\ sim # Absent /\ Note([ev |-> "Save"])
        /\ LET r == Run(member, band) IN file' = [m |-> r.member, want |-> want] /\ member' = r.member /\ band' = r.band
        /\ UNCHANGED <<sim, want>>
\* another object, built from other settings, loads the record and evaluates it
Load == /\ file # Absent /\ Note([ev |-> "Load"])
        /\ LET bd == IF Dev = "LoadKeepsBand" THEN BandOf(Other) ELSE BandOf(file.m)
               r == Run(file.m, bd)
           IN member' = r.member /\ band' = r.band /\ sim' = r.sim
        /\ want' = file.want /\ UNCHANGED file
Next == Declare \/ Close \/ Eval \/ Save \/ Load
Spec == Init /\ [][Next]_vars

GenNext == \E k \in {RandomElement(1..(8 + 0 * Len(hist) + 0 * Len(labels)))} :
             IF ~ready THEN (IF k <= 6 /\ Len(labels) < MaxLabels THEN Declare ELSE IF labels # <<>> THEN Close ELSE Declare)
             ELSE IF k = 1 /\ sim # Absent THEN Save ELSE IF k <= 3 /\ file # Absent THEN Load ELSE Eval
Finish == ready /\ Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<labels, ready, imposed, member, band, file, sim, want, hist, steps>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* C17 *)
SimulatesCandidate == sim # Absent => sim = want.sim
RecordIsSimulated == sim # Absent => Sim0(member) = sim
FileIsRecord == file # Absent => Sim0(file.m) = file.want.sim

Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([hist |-> hist, labels |-> labels, imposed |-> imposed]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
