------------------------------- MODULE Owner -------------------------------
(* Value semantics of objects built from other objects and from the caller's *)
(* dictionaries: what an object holds is what was copied into it when it was *)
(* built or assigned, plus what was written to that object since.            *)
(*   objs : slot -> (field -> value)                                         *)
(* Building takes every field from the slot named for it in `from`.          *)
EXTENDS TLC, FiniteSets, Sequences

Build(objs, slot, from) ==
  [x \in DOMAIN objs \cup {slot} |->
     IF x = slot THEN [f \in DOMAIN from |-> objs[from[f]][f]] ELSE objs[x]]
Write(objs, slot, field, val) == [objs EXCEPT ![slot] = [@ EXCEPT ![field] = val]]
(* Assignment of (part of) another slot: the named fields are copied. *)
Assign(objs, slot, from) ==
  [objs EXCEPT ![slot] = [f \in DOMAIN @ |-> IF f \in DOMAIN from THEN objs[from[f]][f] ELSE @[f]]]

OwnerWrite(objs, e) ==
  CASE e.ev = "Build"  -> Build(objs, e.slot, e.from)
    [] e.ev = "Write"  -> Write(objs, e.slot, e.field, e.val)
    [] e.ev = "Assign" -> Assign(objs, e.slot, e.from)
OwnerWrites == {"Build", "Write", "Assign"}
=============================================================================
