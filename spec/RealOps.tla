------------------------------ MODULE RealOps ------------------------------
(* Real arithmetic for the transport specification.  TLC has no reals, so   *)
(* every operator below is evaluated by the module override RealOps.java    *)
(* (IEEE-754 binary64, total: anything that is not a real is NaN, and every *)
(* comparison with NaN is FALSE).  A real is an integer, a decimal string   *)
(* such as "1.5e-3", or a value returned by one of these operators.         *)
(* The definitions state the meaning over the mathematical reals.           *)
LOCAL REAL == CHOOSE S : TRUE
LOCAL Abstract == CHOOSE x : x \in REAL

R(a)            == Abstract
RAdd(a, b)      == Abstract      \* a + b
RSub(a, b)      == Abstract      \* a - b
RMul(a, b)      == Abstract      \* a * b
RDiv(a, b)      == Abstract      \* a / b
RNeg(a)         == Abstract      \* -a
RAbs(a)         == Abstract      \* |a|
RMin(a, b)      == Abstract
RMax(a, b)      == Abstract
RPow(a, b)      == Abstract      \* a^b
RSqrt(a)        == Abstract
RExp(a)         == Abstract
RLog(a)         == Abstract
RSin(a)         == Abstract
RCos(a)         == Abstract
RCosh(a)        == Abstract
RAtan2(y, x)    == Abstract      \* polar angle of (x, y)
RFloor(a)       == Abstract
RMod(a, m)      == Abstract      \* a - m*floor(a/m), m > 0
RLe(a, b)       == TRUE          \* a <= b
RLt(a, b)       == TRUE          \* a < b
REq(a, b)       == TRUE          \* a = b
RFinite(a)      == TRUE
RClose(a, b, rtol, atol) == TRUE \* |a-b| <= rtol*max(|a|,|b|) + atol
RToInt(a)       == 0             \* truncation to a TLA+ integer
RStr(a)         == ""            \* decimal rendering
RFixed(a, n)    == ""            \* n decimals, round half even
RSum(s)         == Abstract      \* sum of a sequence of reals
RCumSum(s)      == s             \* running sums
RDot(s, t)      == Abstract      \* dot product of two sequences
=============================================================================
