------------------------------ MODULE Integrals ------------------------------
(* Sums over many points, evaluated by the module override Integrals.java.   *)
(* A vector argument is a sequence of reals or one string of reals separated *)
(* by blanks; k-points are given as three vectors.  Expressions (Expr) are   *)
(* evaluated in env extended with the k-point.                               *)
EXTENDS RealOps, Integers, Sequences
LOCAL Abstract == CHOOSE x : TRUE

(* Sequence of reals denoted by a vector. *)
Vec(v) == Abstract
VLen(v) == Abstract

(* \int over {k in box : model(k) <= eps} of every expression of fs, by the  *)
(* midpoint rule on a mesh; a cell through which the level surface passes    *)
(* counts with the fraction of it that is occupied to first order in grad.   *)
(* box[i] = <<lo, hi>>; an axis with lo = hi is not integrated over.         *)
OccupiedIntegrals(model, grad, fs, env, box, mesh, eps) == Abstract

(* For every vector field G (three expressions) of gs:                       *)
(*   <<sum_i w_i G(k_i).n_i, sum_i w_i |G(k_i).n_i|, sum_i w_i |G(k_i)|>>    *)
(* with n_i the unit vector along grad(k_i) restricted to the axes in dims.  *)
SurfaceFluxes(gs, grad, env, kx, ky, kz, w, dims) == Abstract

(* Points of the mesh np.linspace(lo_i, hi_i, n_i)^3 by energy:              *)
(* <<number with E < -tol, number with |E| <= tol>>, per kz plane.           *)
CountOccupied(model, env, box, mesh, tol) == Abstract

(* Smallest element / all elements >= x, of a vector. *)
VMin(v) == Abstract
VMax(v) == Abstract
VSum(v) == Abstract
VFinite(v) == TRUE
(* All |v_i - u_i| <= rtol*max(|v_i|,|u_i|) + atol, and equal lengths. *)
VClose(v, u, rtol, atol) == TRUE
(* Elementwise product; v[from..to]. *)
VMul(v, u) == Abstract
VDiv(v, u) == Abstract
VSub(v, from, to) == Abstract

(* Values of e at every point p, the variable names[i] being vecs[i][p].     *)
EvalOver(e, env, names, vecs) == Abstract

(* Solutions of d(kx,ky,kz)/dt = rhs (three expressions) by the fourth-order *)
(* Runge-Kutta rule with sub steps per dt: from every given point,           *)
(*   OrbitSteps: the point dt later;                                         *)
(*   Orbits: the n points at 0, dt, ..., (n-1) dt, one orbit after another.  *)
OrbitSteps(rhs, env, kx, ky, kz, dt, sub) == Abstract
Orbits(rhs, env, kx, ky, kz, dt, n, sub) == Abstract

(* Chambers' sum, 3 x 3: for orbits of n samples (velocities and rates in    *)
(* vectors, one orbit after another),                                        *)
(*   sum_p w[p] v_i[p,1] sum_t v_j[p,t] exp(-sum_{2 <= u <= t} gamma[p,u] dt) dt *)
ChambersSum(w, vx, vy, vz, gamma, n, dt) == Abstract
=============================================================================
