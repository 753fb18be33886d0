----------------------------- MODULE Trace_C05 ------------------------------
(* C05: a band along a history of calls.  After every call the event carries *)
(* what the band exposes (obs: fingerprint of each quantity, empty when      *)
(* absent).  Ref events, recorded from newly built bands, give the value     *)
(* that belongs to each stamp of BandObj.                                    *)
EXTENDS TraceLib, BandObj, RealOps

MySt0 == [objs |-> <<>>, last |-> <<>>, surf |-> <<>>, fill |-> <<>>]

MyStep(s, e) ==
  CASE e.ev = "Reset" -> MySt0
    [] e.ev = "RefSurface" -> [s EXCEPT !.surf = Append(@, e)]
    [] e.ev = "RefFill" -> [s EXCEPT !.fill = Append(@, e)]
    [] e.ev = "New" -> [s EXCEPT !.objs = (e.obj :> NewBand(e)) @@ s.objs,
                                 !.last = (e.obj :> e.obs) @@ s.last]
    [] e.ev \in BandWrites -> [s EXCEPT !.objs = [s.objs EXCEPT ![e.obj] = BandWrite(@, e)],
                                        !.last = [s.last EXCEPT ![e.obj] = e.obs]]
    [] OTHER -> [s EXCEPT !.last = [s.last EXCEPT ![e.obj] = e.obs]]

Same(x, y) ==      \* fingerprints are sequences of reals
  Len(x) = Len(y) /\ \A i \in 1..Len(x) : RClose(x[i], y[i], "1e-7", "1e-300")

SurfaceParts == {"kf", "vf", "dkf", "dos_k", "moments"}
PlaneParts == {"dks", "dkz", "nppk"}
Absent(o, q) == Len(o[q]) = 0

RefsOf(s, b) == {i \in 1..Len(s.surf) : s.surf[i].params = b.params /\ s.surf[i].scale = b.scale}
FillRefsOf(s, b) == {i \in 1..Len(s.fill) : s.fill[i].params = b.params /\ s.fill[i].scale = b.scale}
Matches(o, ref, parts) == \A q \in parts : Absent(o, q) \/ (~Absent(ref, q) /\ Same(o[q], ref[q]))
Present(o, parts) == \A q \in parts : ~Absent(o, q)
NoneAtAll(o, parts) == \A q \in parts : Absent(o, q)

(* Whatever is exposed is that of one surface of the current settings. *)
SurfaceCurrent(s, b, o) ==
  \/ NoneAtAll(o, SurfaceParts \cup PlaneParts)
  \/ \E i \in RefsOf(s, b) : Matches(o, s.surf[i].obs, SurfaceParts \cup PlaneParts)
OneOf(s, b, o, q) == Absent(o, q) \/ \E i \in RefsOf(s, b) : Matches(o, s.surf[i].obs, {q})
FillCurrent(s, b, o) ==
  \/ NoneAtAll(o, {"n", "p"})
  \/ \E i \in FillRefsOf(s, b) : Matches(o, s.fill[i].obs, {"n", "p"})

(* What the call computed is there, and is that of a new band. *)
SurfaceRef(s, stamp) == {i \in 1..Len(s.surf) : s.surf[i].params = stamp.params /\ s.surf[i].scale = stamp.scale
                                                 /\ s.surf[i].march = stamp.march /\ s.surf[i].eps = stamp.eps}
FillRef(s, stamp) == {i \in 1..Len(s.fill) : s.fill[i].params = stamp.params /\ s.fill[i].scale = stamp.scale
                                              /\ s.fill[i].mesh = stamp.mesh}
Computed(s, e, b) ==
  CASE e.ev \in {"Discretize", "RunBand"} ->
        /\ Present(e.obs, SurfaceParts)
        /\ b.march => Present(e.obs, PlaneParts)
        /\ \E i \in SurfaceRef(s, b.fs) : Matches(e.obs, s.surf[i].obs, SurfaceParts \cup PlaneParts)
        /\ e.ev = "RunBand" =>
             Present(e.obs, {"n", "p"}) /\ \E i \in FillRef(s, b.fill) : Matches(e.obs, s.fill[i].obs, {"n", "p"})
    [] e.ev = "Fill" -> Present(e.obs, {"n", "p"})
                        /\ \E i \in FillRef(s, b.fill) : Matches(e.obs, s.fill[i].obs, {"n", "p"})
    [] e.ev = "SetMu" -> e.direct =>
                           (Present(e.obs, {"n", "p"})
                            /\ \E i \in FillRef(s, b.fill) : Matches(e.obs, s.fill[i].obs, {"n", "p"}))
    [] e.ev = "Dos" -> ~Absent(e.obs, "dos") /\ \E i \in SurfaceRef(s, b.fs) : Matches(e.obs, s.surf[i].obs, {"dos"})
    [] e.ev = "Mass" -> ~Absent(e.obs, "mass") /\ \E i \in SurfaceRef(s, b.fs) : Matches(e.obs, s.surf[i].obs, {"mass"})

Settings(b, o) ==
  /\ DOMAIN o.params = DOMAIN b.params
  /\ \A k \in DOMAIN b.params : REq(o.params[k], b.params[k])
  /\ REq(o.scale, b.scale)

MyChecks(s, e) ==
  IF e.ev \in {"Reset", "RefSurface", "RefFill"} THEN [NoError |-> TRUE]
  ELSE
  LET b == IF e.ev = "New" THEN NewBand(e)
           ELSE IF e.ev \in BandWrites THEN BandWrite(s.objs[e.obj], e) ELSE s.objs[e.obj]
      o == e.obs
      always == [NoStaleSurface |-> SurfaceCurrent(s, b, o),
                 NoStaleFilling |-> FillCurrent(s, b, o),
                 NoStaleDos |-> OneOf(s, b, o, "dos"),
                 NoStaleMass |-> OneOf(s, b, o, "mass"),
                 SettingsAsSet |-> Settings(b, o)]
      extra ==
        IF e.ev \in {"Discretize", "RunBand", "Fill", "SetMu", "Dos", "Mass"}
        THEN [RecomputedIsFresh |-> Computed(s, e, b)]
        ELSE IF e.ev = "Look" \/ (e.ev = "SetItem" /\ e.key \notin DOMAIN s.objs[e.obj].params)
        THEN [NothingChanges |-> o = s.last[e.obj]]
        ELSE [NoError |-> TRUE]
  IN extra @@ always
=============================================================================
