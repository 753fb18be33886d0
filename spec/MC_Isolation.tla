---------------------------- MODULE MC_Isolation ----------------------------
(* Heap model of construction and assignment.  Every slot (a caller's        *)
(* dictionary, the defaults of the classes, a band, a transport calculation, *)
(* a list of them, a simulated material, a fit) refers, field by field, to   *)
(* heap cells.  Checked: the heap refines the value semantics of Owner, i.e. *)
(* what is read through any reference is what Owner says the slot holds,     *)
(* and no two slots ever share a cell.  With CopyOnBuild or CopyOnAssign     *)
(* FALSE (references kept instead of copies) both must be violated.          *)
(* The same module generates the histories replayed into the code.           *)
EXTENDS Owner, Integers, Json, IOUtils

CONSTANTS Slots,        \* slots that may be built
          Fields, Vals, CopyOnBuild, CopyOnAssign, Generating, Depth

MyFALSE == FALSE
Kind(s) ==
  CASE s \in {"U", "A"} -> "dict" [] s = "Z" -> "defaults"
    [] s \in {"B1", "B2", "D1", "D2"} -> "band"
    [] s \in {"C1", "C2", "C3"} -> "cond"
    [] s \in {"L"} -> "list" [] s \in {"R"} -> "scan"
    [] s \in {"S"} -> "sim" [] s \in {"F"} -> "fit" [] s \in {"P"} -> "fit1"
BandF == {"bp", "kmax", "res"}
CondF == {"bp", "kmax", "res", "sp", "models"}
FieldsOf(k) ==
  Fields \cap (CASE k \in {"dict", "fit", "fit1"} -> CondF \cup {"bounds", "data"}
                 [] k \in {"defaults", "band"} -> BandF
                 [] k \in {"cond", "sim"} -> CondF
                 [] k \in {"list", "scan"} -> {"members"})
\* What cannot be taken from a source: a default-built band takes no field from U.
Sources(s, live) ==
  CASE s \in {"B1", "B2"} -> {[f \in FieldsOf("band") |-> d] : d \in {"U"}}
    [] s \in {"D1", "D2"} -> {[f \in FieldsOf("band") |-> d] : d \in {"Z"}}
    [] Kind(s) = "cond" -> {[f \in FieldsOf("cond") |-> IF f \in BandF THEN d ELSE "U"] :
                              d \in {x \in live : Kind(x) \in {"band", "cond"}}}
    [] s = "R" -> {[f \in FieldsOf("scan") |-> "L"]}
    [] OTHER -> {[f \in FieldsOf(Kind(s)) |-> "U"]}
AssignFields(k) ==
  CASE k = "band" -> {{"bp"}} [] k = "cond" -> {{"bp"}, {"sp"}}
    [] k = "sim" -> {{"bp", "sp"}} [] OTHER -> {}
Writable(s) == IF Kind(s) \in {"fit", "fit1"} THEN {"bp", "sp"}
               ELSE IF Kind(s) = "defaults" THEN {} ELSE FieldsOf(Kind(s))

Roots == {"U", "A", "Z", "L"}
VARIABLES objs,          \* Owner's view
          ref, heap,     \* slot -> field -> cell;  cell -> value
          hist, bound
vars == <<objs, ref, heap, hist, bound>>
Live == DOMAIN objs

First == CHOOSE v \in Vals : TRUE
Init ==
  /\ objs = [s \in Roots |-> [f \in FieldsOf(Kind(s)) |-> First]]
  /\ ref = [s \in Roots |-> [f \in FieldsOf(Kind(s)) |-> <<s, f>>]]
  /\ heap = [c \in UNION {{<<s, f>> : f \in FieldsOf(Kind(s))} : s \in Roots} |-> First]
  /\ hist = <<>> /\ bound \in IF Generating THEN {Depth} ELSE {0}

Step(e) ==
  /\ Generating => Len(hist) < bound
  /\ objs' = OwnerWrite(objs, e)
  /\ hist' = IF Generating THEN Append(hist, e) ELSE hist
  /\ UNCHANGED bound

\* The heap after slot s received copies of (or references to) the sources.
Receive(s, from, copy) ==
  /\ ref' = [x \in Live \cup {s} |->
       IF x = s THEN [f \in (IF s \in Live THEN DOMAIN ref[s] ELSE DOMAIN from) |->
                        IF f \in DOMAIN from THEN IF copy THEN <<s, f>> ELSE ref[from[f]][f]
                        ELSE ref[s][f]]
       ELSE ref[x]]
  /\ heap' = IF copy THEN [f \in {<<s, g>> : g \in DOMAIN from} |-> heap[ref[from[f[2]]][f[2]]]] @@ heap ELSE heap

DoBuild(s) ==
  /\ s \notin Live
  /\ \E from \in Sources(s, Live) :
       /\ Step([ev |-> "Build", slot |-> s, from |-> from])
       /\ Receive(s, from, CopyOnBuild)
DoWrite(s) ==
  \E f \in Writable(s) \cap Fields, v \in Vals :
    /\ objs[s][f] # v
    /\ Step([ev |-> "Write", slot |-> s, field |-> f, val |-> v])
    /\ heap' = [heap EXCEPT ![ref[s][f]] = v]
    /\ UNCHANGED ref
DoAssign(s) ==
  \E fs \in AssignFields(Kind(s)), d \in {"U", "A"} :
    /\ fs \subseteq Fields
    /\ \E from \in {[f \in fs |-> d]} :
       /\ Step([ev |-> "Assign", slot |-> s, from |-> from])
       /\ Receive(s, from, CopyOnAssign)

Next == \/ \E s \in Slots : DoBuild(s)
        \/ \E s \in Live : DoWrite(s) \/ DoAssign(s)
Spec == Init /\ [][Next]_vars

(* Half of the generated calls build (as long as something can be built),    *)
(* the others write to or assign to a slot drawn evenly.                     *)
Buildable == {s \in Slots \ Live : Sources(s, Live) # {}}
GenNext ==
  \E k \in {RandomElement(1..(10 + 0 * Len(hist)))} :
    IF k <= 5 /\ Buildable # {} THEN \E s \in {RandomElement(Buildable)} : DoBuild(s)
    ELSE \E s \in {RandomElement(IF k = 6 THEN {"U", "A"} ELSE Live \ {"Z"})} :
           IF k >= 9 /\ AssignFields(Kind(s)) # {} THEN DoAssign(s) ELSE DoWrite(s)
(* A finished history is emitted by one last step, so that it is written once. *)
Finish == Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<objs, ref, heap, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* C06 *)
ReadsOwnValue == \A s \in Live : \A f \in DOMAIN objs[s] : heap[ref[s][f]] = objs[s][f]
NothingShared == \A s, t \in Live : s # t => {ref[s][f] : f \in DOMAIN ref[s]} \cap {ref[t][f] : f \in DOMAIN ref[t]} = {}
DefaultsConstant == \A f \in DOMAIN objs["Z"] : heap[<<"Z", f>>] = First

Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([hist |-> hist]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
