------------------------------- MODULE MC_Scat -------------------------------
(* Design model of rate evaluation: a rate is a function of the settings and *)
(* of the points it is asked for.  The code keeps the last angles it         *)
(* computed (phi) and works on the arrays it is given; with ReuseAngles or   *)
(* FoldInPlace TRUE (angles reused, caller's points folded in place) the     *)
(* invariants must be violated.  Also generates the histories of C07.        *)
EXTENDS ScatObj, Integers, FiniteSets, Json, IOUtils

CONSTANTS Params, Vals, Models, Points, ReuseAngles, FoldInPlace, Generating, Depth
MyTRUE == TRUE
None == [none |-> TRUE]
NoAngles == "no angles kept"

VARIABLES s, surf,       \* settings; which surface the band carries
          phi,           \* points whose angles are kept
          pts,           \* what the caller's array of points holds now
          last,          \* last evaluation: [at, got]
          hist, bound
vars == <<s, surf, phi, pts, last, hist, bound>>

First == CHOOSE v \in Vals : TRUE
Init == /\ s = NewScat({CHOOSE m \in Models : TRUE}, [p \in Params |-> First])
        /\ surf = 0 /\ phi = NoAngles /\ pts = [x \in Points |-> "as given"] /\ last = None
        /\ hist = <<>> /\ bound \in IF Generating THEN 4..Depth ELSE {0}

Note(e) == /\ Generating => Len(hist) < bound
           /\ hist' = IF Generating THEN Append(hist, e) ELSE hist
           /\ UNCHANGED bound
Write(e) == Note(e) /\ s' = ScatWrite(s, e) /\ UNCHANGED <<surf, phi, pts, last>>
DoAttr == \E p \in Params, v \in Vals : Write([ev |-> "SetAttr", key |-> p, val |-> v])
DoDict == \E ps \in SUBSET Params \ {{}} : \E d \in [ps -> Vals] : Write([ev |-> "SetDict", params |-> d])
DoModels == \E ms \in SUBSET Models \ {{}} : Write([ev |-> "SetModels", models |-> ms])
DoSurface == Note([ev |-> "Surface"]) /\ surf' = 1 - surf /\ UNCHANGED <<s, phi, pts, last>>
\* the stamp of a rate: everything it depends on
Stamp(x, angles) == [models |-> s.models, params |-> s.params, surf |-> surf, at |-> x, angles |-> angles]
DoEval ==
  \E x \in Points :
    /\ Note([ev |-> "Eval", at |-> x])
    /\ phi' = IF ReuseAngles /\ phi # NoAngles THEN phi ELSE x
    /\ last' = [at |-> x, want |-> Stamp(x, x), got |-> Stamp(x, phi')]
    /\ pts' = IF FoldInPlace THEN [pts EXCEPT ![x] = "folded"] ELSE pts
    /\ UNCHANGED <<s, surf>>
DoRun == /\ Note([ev |-> "Run"])
         /\ phi' = "surface"
         /\ last' = [at |-> "surface", want |-> Stamp("surface", "surface"), got |-> Stamp("surface", phi')]
         /\ UNCHANGED <<s, surf, pts>>
Next == DoAttr \/ DoDict \/ DoModels \/ DoSurface \/ DoEval \/ DoRun
Spec == Init /\ [][Next]_vars

Draw(k) == CASE k = 1 -> DoAttr [] k = 2 -> DoDict [] k = 3 -> DoModels [] k = 4 -> DoSurface [] k = 5 -> DoRun [] OTHER -> DoEval
GenNext == \E k \in {RandomElement(1..(8 + 0 * Len(hist)))} : Draw(k)
Finish == Len(hist) = bound /\ bound' = -1 /\ UNCHANGED <<s, surf, phi, pts, last, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars

(* C07 *)
RatesAreFresh == last # None => last.got = last.want
InputsUntouched == \A x \in Points : pts[x] = "as given"
\* the settings are those last set, independently of how
LastSetWins == \A p \in Params, v \in Vals :
  /\ SetAttr(SetAttr(s, p, First), p, v) = SetAttr(s, p, v)
  /\ SetAttr(s, p, v) = SetDict(s, [q \in {p} |-> v])

Emit ==
  (Generating /\ bound = -1) =>
     Serialize(ToJson([hist |-> hist]) \o "\n", IOEnv.GENFILE,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
