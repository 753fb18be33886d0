-------------------------------- MODULE Expr --------------------------------
(* Dispersion expressions as syntax trees, their value, their exact partial *)
(* derivatives and rigorous bounds of their absolute value over a box.      *)
(*   [op |-> "num", v |-> real]     [op |-> "var", n |-> name]              *)
(*   [op |-> "add"|"sub"|"mul", a |-> e, b |-> e]   [op |-> "neg", a |-> e] *)
(*   [op |-> "pow", a |-> e, k |-> Nat]                                     *)
(*   [op |-> "cos"|"sin"|"exp"|"sqrt", a |-> e]                             *)
(* and, for scattering rates only (no derivative, no bound):                 *)
(*   [op |-> "abs", a |-> e]    [op |-> "powr"|"atan2"|"mod", a |-> e, b |-> e] *)
EXTENDS RealOps, Integers, Sequences

ENum(x)   == [op |-> "num", v |-> x]
EVar(n)   == [op |-> "var", n |-> n]
Zero      == ENum("0")
One       == ENum("1")
IsZero(e) == e.op = "num" /\ REq(e.v, 0)
IsOne(e)  == e.op = "num" /\ REq(e.v, 1)
EAdd(x, y) == IF IsZero(x) THEN y ELSE IF IsZero(y) THEN x
              ELSE [op |-> "add", a |-> x, b |-> y]
ENeg(x)    == IF IsZero(x) THEN x ELSE [op |-> "neg", a |-> x]
ESub(x, y) == IF IsZero(y) THEN x ELSE IF IsZero(x) THEN ENeg(y)
              ELSE [op |-> "sub", a |-> x, b |-> y]
EMul(x, y) == IF IsZero(x) \/ IsZero(y) THEN Zero
              ELSE IF IsOne(x) THEN y ELSE IF IsOne(y) THEN x
              ELSE [op |-> "mul", a |-> x, b |-> y]
EPow(x, k) == IF k = 0 THEN One ELSE IF k = 1 THEN x
              ELSE [op |-> "pow", a |-> x, k |-> k]
EFun(f, x) == [op |-> f, a |-> x]
EFun2(f, x, y) == [op |-> f, a |-> x, b |-> y]

RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e.op = "num"  -> e.v
    [] e.op = "var"  -> env[e.n]
    [] e.op = "add"  -> RAdd(Eval(e.a, env), Eval(e.b, env))
    [] e.op = "sub"  -> RSub(Eval(e.a, env), Eval(e.b, env))
    [] e.op = "mul"  -> RMul(Eval(e.a, env), Eval(e.b, env))
    [] e.op = "neg"  -> RNeg(Eval(e.a, env))
    [] e.op = "pow"  -> RPow(Eval(e.a, env), e.k)
    [] e.op = "cos"  -> RCos(Eval(e.a, env))
    [] e.op = "sin"  -> RSin(Eval(e.a, env))
    [] e.op = "exp"  -> RExp(Eval(e.a, env))
    [] e.op = "sqrt" -> RSqrt(Eval(e.a, env))
    [] e.op = "abs"  -> RAbs(Eval(e.a, env))
    [] e.op = "powr" -> RPow(Eval(e.a, env), Eval(e.b, env))
    [] e.op = "atan2" -> RAtan2(Eval(e.a, env), Eval(e.b, env))
    [] e.op = "mod"  -> RMod(Eval(e.a, env), Eval(e.b, env))

(* Exact partial derivative with respect to the variable named x. *)
RECURSIVE D(_, _)
D(e, x) ==
  CASE e.op = "num"  -> Zero
    [] e.op = "var"  -> IF e.n = x THEN One ELSE Zero
    [] e.op = "add"  -> EAdd(D(e.a, x), D(e.b, x))
    [] e.op = "sub"  -> ESub(D(e.a, x), D(e.b, x))
    [] e.op = "mul"  -> EAdd(EMul(D(e.a, x), e.b), EMul(e.a, D(e.b, x)))
    [] e.op = "neg"  -> ENeg(D(e.a, x))
    [] e.op = "pow"  -> EMul(EMul(ENum(e.k), EPow(e.a, e.k - 1)), D(e.a, x))
    [] e.op = "cos"  -> ENeg(EMul(EFun("sin", e.a), D(e.a, x)))
    [] e.op = "sin"  -> EMul(EFun("cos", e.a), D(e.a, x))
    [] e.op = "exp"  -> EMul(e, D(e.a, x))
    [] e.op = "sqrt" -> EMul(EMul(ENum("0.5"), [op |-> "pow", a |-> e, k |-> -1]), D(e.a, x))

(* Upper bound of |e| when every variable x satisfies |x| <= env[x]. *)
RECURSIVE Bound(_, _)
Bound(e, env) ==
  CASE e.op = "num"  -> RAbs(e.v)
    [] e.op = "var"  -> RAbs(env[e.n])
    [] e.op = "add"  -> RAdd(Bound(e.a, env), Bound(e.b, env))
    [] e.op = "sub"  -> RAdd(Bound(e.a, env), Bound(e.b, env))
    [] e.op = "mul"  -> RMul(Bound(e.a, env), Bound(e.b, env))
    [] e.op = "neg"  -> Bound(e.a, env)
    [] e.op = "pow"  -> RPow(Bound(e.a, env), e.k)
    [] e.op = "cos"  -> 1
    [] e.op = "sin"  -> 1
    [] e.op = "exp"  -> RExp(Bound(e.a, env))
    [] e.op = "sqrt" -> RSqrt(Bound(e.a, env))
=============================================================================
