------------------------------ MODULE BandMath ------------------------------
(* What a band is: a dispersion expression (Expr) in kx, ky, kz, the lattice *)
(* constants and named parameters that are fractions of the energy scale.    *)
(* A band setting is [model, a, b, c, scale, params].                        *)
EXTENDS Expr, SequencesExt

HBar == "1.0545718176461565e-34"     \* J s
MeV  == "1.602176634e-22"            \* J
Ang  == "1e-10"                      \* m
Pi   == "3.141592653589793"
VUnit == RDiv(RMul(MeV, Ang), HBar)  \* (meV Angstrom / hbar) in m/s

(* Value of every symbol of the model at the k-point k = <<kx, ky, kz>>. *)
Env(band, k) ==
  [n \in {"kx", "ky", "kz", "a", "b", "c"} \cup DOMAIN band.params |->
     CASE n \in DOMAIN band.params -> RMul(band.params[n], band.scale)
       [] n = "kx" -> R(k[1]) [] n = "ky" -> R(k[2]) [] n = "kz" -> R(k[3])
       [] n = "a" -> R(band.a) [] n = "b" -> R(band.b) [] n = "c" -> R(band.c)]

Energy(band, k) == Eval(band.model, Env(band, k))                 \* meV

KNames == <<"kx", "ky", "kz">>
GradExpr(model) == [i \in 1..3 |-> D(model, KNames[i])]
(* grad is GradExpr(band.model), computed once per model *)
Velocity(band, grad, k) ==
  LET env == Env(band, k) IN [i \in 1..3 |-> RMul(Eval(grad[i], env), VUnit)]

Norm(v) == RSqrt(RDot(v, v))
=============================================================================
