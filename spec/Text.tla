-------------------------------- MODULE Text --------------------------------
(* Strings (evaluated by the module override Text.java).                     *)
EXTENDS Sequences
LOCAL Abstract == CHOOSE x : TRUE
SSort(q) == Abstract       \* the strings of a sequence in code-point order
SJoin(q, sep) == Abstract  \* q[1] \o sep \o q[2] ...
=============================================================================
