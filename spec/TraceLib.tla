------------------------------ MODULE TraceLib ------------------------------
(* Trace validation skeleton.  The trace file (ndjson, one event per line,  *)
(* recorded from the real code) is consumed one event per step.  A trace    *)
(* module supplies                                                           *)
(*    St0          the initial abstract state                                *)
(*    StepOf(s, e) the state of the specification after event e              *)
(*    ChecksOf(s, e) a record: clause name -> does event e, observed in      *)
(*                 abstract state s, satisfy it?                             *)
(* Every event is always consumed; clauses that are FALSE are accumulated    *)
(* with the event's position, so one wrong event never hides the rest.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS St0, StepOf(_, _), ChecksOf(_, _)

TheTrace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          st,     \* abstract state of the specification
          fails,  \* sequence of [line, event, clause]
          hits    \* clause -> how often it was evaluated

vars == <<l, st, fails, hits>>

TraceInit == l = 1 /\ st = St0 /\ fails = <<>> /\ hits = <<>>

Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default

TraceNext ==
  /\ l <= Len(TheTrace)
  \* (bound by \E over a singleton so that TLC evaluates the checks once)
  /\ \E e \in {TheTrace[l]}, now \in {st} :
     \* an event that raised an exception satisfies nothing but NoError
     \E ok \in {Get(e, "ok", TRUE)} :
     \E ch \in {IF ok THEN ChecksOf(now, e) ELSE [NoError |-> FALSE]} :
     \E bad \in {SetToSeq({c \in DOMAIN ch : ~ch[c]})} :
        /\ fails' = fails \o [i \in 1..Len(bad) |->
                 [line |-> l, event |-> Get(e, "ev", "?"), clause |-> bad[i],
                  tag |-> Get(e, "tag", ""), err |-> Get(e, "err", "")]]
        /\ hits' = [c \in DOMAIN hits \cup DOMAIN ch |->
                      Get(hits, c, 0) + (IF c \in DOMAIN ch THEN 1 ELSE 0)]
        /\ st' = IF ok THEN StepOf(now, e) ELSE now
        /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_vars

(* Written once, when the last event has been consumed. *)
Report ==
  (l = Len(TheTrace) + 1) =>
     JsonSerialize(IOEnv.VERDICT, [consumed |-> l - 1, fails |-> fails, hits |-> hits])

TraceAccepted == TLCGet("stats").diameter - 1 = Len(TheTrace)
=============================================================================
