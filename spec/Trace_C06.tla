----------------------------- MODULE Trace_C06 -----------------------------
(* Recorded building, writing and assigning of real objects against the      *)
(* value semantics of Owner: after every event the settings of every live    *)
(* object are those Owner gives it, and no result of any object other than   *)
(* the event's target differs from what it was.                              *)
EXTENDS TraceLib, RealOps, Integrals, Owner

MySt0 == [objs |-> <<>>, last |-> <<>>, kind |-> <<>>]
Same(a, b) == (a = "" /\ b = "") \/ (a # "" /\ b # "" /\ VClose(a, b, "1e-9", "1e-18"))

Writes(s, e) == IF e.ev = "Init" THEN [x \in DOMAIN e.obs |-> e.obs[x].set] ELSE OwnerWrite(s.objs, e)
MyStep(s, e) ==
  [objs |-> Writes(s, e), last |-> e.obs,
   kind |-> IF e.ev = "Init" THEN [x \in DOMAIN e.obs |-> "root"]
            ELSE [x \in DOMAIN s.kind \cup {e.slot} |-> IF x = e.slot THEN e.kind ELSE s.kind[x]]]

MyChecks(s, e) ==
  IF e.ev = "Init"
  THEN [DefaultsAsDocumented |-> e.obs["Z"].set = e.defaults]
  ELSE LET objs == OwnerWrite(s.objs, e)
           others == DOMAIN s.last \ {e.slot}
           kind == MyStep(s, e).kind
           frame == /\ \A x \in others : e.obs[x].set = s.last[x].set /\ e.obs[x].view = s.last[x].view
                    /\ \A x \in others : Same(e.obs[x].res, s.last[x].res)
                    /\ \A x \in others : Same(e.obs[x].stored, s.last[x].stored)
       IN ("SettingsAreOwn" :> (\A x \in DOMAIN objs : e.obs[x].set = objs[x])) @@
          ("ResultsFollowSettings" :>
             (\A x \in DOMAIN objs : kind[x] = e.kind /\ x # e.slot /\ e.kind \in {"band", "cond"}
                 /\ e.obs[x].set = e.obs[e.slot].set => Same(e.obs[x].res, e.obs[e.slot].res))) @@
          ((CASE e.ev = "Build"  -> "BuildingChangesNothingElse"
              [] e.ev = "Assign" -> "AssigningChangesNothingElse"
              [] e.ev = "Write" /\ e.kind \in {"dict", "list"} -> "CallersWritesStayOutside"
              [] e.ev = "Write" /\ e.kind = "band" -> "BandWritesStayInBand"
              [] e.ev = "Write" -> "TransportWritesStayInside") :> frame)
=============================================================================
