----------------------------- MODULE Trace_C12 -----------------------------
(* C12: conductivities of related settings.  The state is the law that       *)
(* Symmetry predicts for the transformations applied since the base.         *)
EXTENDS TraceLib, Transport, Symmetry

MySt0 == [base |-> <<>>, law |-> Identity, set |-> NoChange]
MyStep(s, e) ==
  CASE e.ev = "Base" -> [base |-> <<e>>, law |-> Identity, set |-> NoChange]
    [] e.ev = "Do" -> [s EXCEPT !.law = Law(@, e.kind, e.k), !.set = Effect(@, e.kind, e.k)]
    [] OTHER -> s

Transpose(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
\* a quarter turn about c: R m R^T with R x = y, R y = -x
Quarter(m) ==
  LET p == <<2, 1, 3>>
      sg(i) == IF i = 1 THEN -1 ELSE 1
  IN [i \in 1..3 |-> [j \in 1..3 |-> RMul(sg(i) * sg(j), m[p[i]][p[j]])]]
RECURSIVE Turn(_, _)
Turn(m, n) == IF n = 0 THEN m ELSE Turn(Quarter(m), n - 1)
Predicted(base, law) ==
  LET f == RMul(RPow(base.s, law.f), RPow(base.z, law.zones))
      m == IF law.transposed THEN Transpose(base.sigma) ELSE base.sigma
  \* the tensor for the turned and reversed field: transposition commutes with turning
  IN Scale3(f, Turn(m, law.turns))
\* relative to the diagonal, element by element
Near(m, n, tol) ==
  \A i, j \in 1..3 : RLe(RAbs(RSub(m[i][j], n[i][j])), RAdd(RMul(tol, RSqrt(RAbs(RMul(n[i][i], n[j][j])))), RMul("1e-8", Max3(n))))
\* settings requested for the transformed object
Requested(base, set, e) ==
  LET p(k) == RPow(base.s, set[k]) IN
  /\ RClose(e.rates, RMul(base.rates, p("rates")), "1e-12", 0)
  /\ RClose(e.B, RMul(set.sign, RMul(base.B, p("field"))), "1e-12", 0)
  /\ RClose(e.scale, RMul(base.scale, p("energy")), "1e-12", 0)
  /\ RClose(e.a, RMul(base.a, p("lattice")), "1e-12", 0)
  /\ REq(RMod(RSub(e.ph, RAdd(base.ph, 90 * set.turns)), 360), 0)
  /\ RClose(e.nbz, RMul(base.nbz, RPow(base.z, set.zones)), "1e-12", 0)

MyChecks(s, e) ==
  CASE e.ev = "Do" ->
         LET law == Law(s.law, e.kind, e.k)
             set == Effect(s.set, e.kind, e.k)
             base == s.base[1]
             tol == IF law.transposed \/ law.turns # 0 THEN base.coarse ELSE base.fine
         IN [q \in {e.kind} |-> Near(e.sigma, Predicted(base, law), tol)] @@
            [HarnessDidAsAsked |-> Requested(base, set, e)]
    [] OTHER -> [BaseFinite |-> \A i \in 1..3 : VFinite(e.sigma[i])]
=============================================================================
