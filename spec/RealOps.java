import tlc2.value.impl.*;
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

/**
 * TLC module override for RealOps.tla: IEEE-754 binary64 arithmetic.
 * A real is an IntValue, a decimal StringValue ("nan", "inf", "-inf" allowed)
 * or the pair of 32-bit halves of its bit pattern (what every operator returns).
 * Anything that is not a real evaluates to NaN, so every comparison with it is FALSE:
 * operators are total and verdicts over malformed observations are FALSE, not errors.
 */
public class RealOps {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.equals("inf")) return Double.POSITIVE_INFINITY;
      if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
      try { return Double.parseDouble(s); } catch (NumberFormatException e) { return Double.NaN; }
    }
    Value tv = v == null ? null : v.toTuple();
    if (tv instanceof TupleValue) {
      TupleValue t = (TupleValue) tv;
      if (t.elems.length == 2 && t.elems[0] instanceof IntValue && t.elems[1] instanceof IntValue)
        return Double.longBitsToDouble(((long) ((IntValue) t.elems[0]).val << 32)
            | (((IntValue) t.elems[1]).val & 0xffffffffL));
    }
    return Double.NaN;
  }
  static Value r(double x) {
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value R(Value a) { return r(d(a)); }
  public static Value RAdd(Value a, Value b) { return r(d(a) + d(b)); }
  public static Value RSub(Value a, Value b) { return r(d(a) - d(b)); }
  public static Value RMul(Value a, Value b) { return r(d(a) * d(b)); }
  public static Value RDiv(Value a, Value b) { return r(d(a) / d(b)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RMin(Value a, Value b) { return r(Math.min(d(a), d(b))); }
  public static Value RMax(Value a, Value b) { return r(Math.max(d(a), d(b))); }
  public static Value RPow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLog(Value a) { return r(Math.log(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RCosh(Value a) { return r(Math.cosh(d(a))); }
  public static Value RAtan2(Value y, Value x) { return r(Math.atan2(d(y), d(x))); }
  public static Value RFloor(Value a) { return r(Math.floor(d(a))); }
  /** x modulo a positive m, in [0, m). */
  public static Value RMod(Value a, Value m) {
    double x = d(a), y = d(m);
    return r(x - y * Math.floor(x / y));
  }
  public static Value RLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value RLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value REq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  /** |a-b| <= rtol*max(|a|,|b|) + atol ; FALSE on NaN. */
  public static Value RClose(Value a, Value b, Value rt, Value at) {
    double x = d(a), y = d(b);
    return b(x == y || Math.abs(x - y) <= d(rt) * Math.max(Math.abs(x), Math.abs(y)) + d(at));
  }
  /** Truncation to a TLA+ integer (0 when out of range). */
  public static Value RToInt(Value a) {
    double x = d(a);
    return IntValue.gen(Math.abs(x) < 2.0e9 ? (int) x : 0);
  }
  public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
  static BigDecimal bd(Value a) { return new BigDecimal(d(a)); }
  /** Fixed notation with n decimals, round half even on the exact binary value. */
  public static Value RFixed(Value a, IntValue n) {
    double x = d(a);
    if (Double.isNaN(x) || Double.isInfinite(x)) return new StringValue("nan");
    String s = bd(a).setScale(n.val, RoundingMode.HALF_EVEN).toPlainString();
    if (s.charAt(0) != '-' && (x < 0 || (x == 0 && 1 / x < 0))) s = "-" + s;
    return new StringValue(s);
  }
  public static Value RSum(Value s) {
    Value tv = s.toTuple();
    if (!(tv instanceof TupleValue)) return r(Double.NaN);
    double acc = 0;
    for (Value v : ((TupleValue) tv).elems) acc += d(v);
    return r(acc);
  }
  /** Running sums: result[i] = s[1] + ... + s[i]. */
  public static Value RCumSum(Value s) {
    Value tv = s.toTuple();
    if (!(tv instanceof TupleValue)) return new TupleValue(new Value[0]);
    Value[] e = ((TupleValue) tv).elems;
    Value[] o = new Value[e.length];
    double acc = 0;
    for (int i = 0; i < e.length; i++) { acc += d(e[i]); o[i] = r(acc); }
    return new TupleValue(o);
  }
  /** Dot product of two sequences of equal length (NaN otherwise). */
  public static Value RDot(Value s, Value t) {
    Value a = s.toTuple(), c = t.toTuple();
    if (!(a instanceof TupleValue) || !(c instanceof TupleValue)) return r(Double.NaN);
    Value[] e = ((TupleValue) a).elems, f = ((TupleValue) c).elems;
    if (e.length != f.length) return r(Double.NaN);
    double acc = 0;
    for (int i = 0; i < e.length; i++) acc += d(e[i]) * d(f[i]);
    return r(acc);
  }
}
