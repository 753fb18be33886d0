import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

/** TLC module override for Integrals.tla. */
public class Integrals {
  interface F { double at(double[] x); }

  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Value field(RecordValue r, String n) {
    for (int i = 0; i < r.names.length; i++) if (r.names[i].toString().equals(n)) return r.values[i];
    return null;
  }
  static RecordValue rec(Value v) {
    return (RecordValue) (v instanceof RecordValue ? v : v.toRcd());
  }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    return t instanceof TupleValue ? ((TupleValue) t).elems : new Value[0];
  }

  /** Variables: index in x; 0..2 are kx, ky, kz, then the others. */
  static F compile(Value v, Map<String, Integer> ix) {
    RecordValue r = rec(v);
    String op = str(field(r, "op"));
    switch (op) {
      case "num": { double c = RealOps.d(field(r, "v")); return x -> c; }
      case "var": { Integer i = ix.get(str(field(r, "n"))); int j = i; return x -> x[j]; }
      case "pow": {
        F a = compile(field(r, "a"), ix);
        int k = ((IntValue) field(r, "k")).val;
        if (k == 2) return x -> { double y = a.at(x); return y * y; };
        return x -> Math.pow(a.at(x), k);
      }
    }
    F a = compile(field(r, "a"), ix);
    switch (op) {
      case "neg": return x -> -a.at(x);
      case "cos": return x -> Math.cos(a.at(x));
      case "sin": return x -> Math.sin(a.at(x));
      case "exp": return x -> Math.exp(a.at(x));
      case "sqrt": return x -> Math.sqrt(a.at(x));
      case "abs": return x -> Math.abs(a.at(x));
    }
    F b = compile(field(r, "b"), ix);
    switch (op) {
      case "add": return x -> a.at(x) + b.at(x);
      case "sub": return x -> a.at(x) - b.at(x);
      case "mul": return x -> a.at(x) * b.at(x);
      case "powr": return x -> Math.pow(a.at(x), b.at(x));
      case "atan2": return x -> Math.atan2(a.at(x), b.at(x));
      case "mod": return x -> { double u = a.at(x), m = b.at(x); return u - m * Math.floor(u / m); };
    }
    throw new RuntimeException("unknown operator " + op);
  }

  static final class Scope {
    final Map<String, Integer> ix = new HashMap<>();
    double[] x;
    Scope(Value env) {
      RecordValue r = rec(env);
      ix.put("kx", 0); ix.put("ky", 1); ix.put("kz", 2);
      double[] v = new double[r.names.length + 3];
      int n = 3;
      for (int i = 0; i < r.names.length; i++) {
        String s = r.names[i].toString();
        if (ix.containsKey(s)) continue;
        v[n] = RealOps.d(r.values[i]);
        ix.put(s, n++);
      }
      x = v;
    }
    F f(Value e) { return compile(e, ix); }
    F[] fs(Value es) {
      Value[] s = seq(es);
      F[] o = new F[s.length];
      for (int i = 0; i < o.length; i++) o[i] = f(s[i]);
      return o;
    }
  }

  static double[] vec(Value v) {
    if (v instanceof StringValue) {
      StringTokenizer t = new StringTokenizer(str(v));
      double[] o = new double[t.countTokens()];
      for (int i = 0; i < o.length; i++) {
        String s = t.nextToken();
        try {
          o[i] = s.equals("inf") ? Double.POSITIVE_INFINITY : s.equals("-inf") ? Double.NEGATIVE_INFINITY
              : Double.parseDouble(s);
        } catch (NumberFormatException e) { o[i] = Double.NaN; }
      }
      return o;
    }
    Value[] s = seq(v);
    // a real returned by RealOps is a pair of integers and not a vector
    double[] o = new double[s.length];
    for (int i = 0; i < o.length; i++) o[i] = RealOps.d(s[i]);
    return o;
  }
  static Value out(double[] a) {
    Value[] o = new Value[a.length];
    for (int i = 0; i < o.length; i++) o[i] = RealOps.r(a[i]);
    return new TupleValue(o);
  }

  public static Value Vec(Value v) { return out(vec(v)); }
  public static Value VLen(Value v) { return IntValue.gen(vec(v).length); }
  public static Value VMin(Value v) {
    double m = Double.POSITIVE_INFINITY;
    for (double x : vec(v)) { if (Double.isNaN(x)) return RealOps.r(x); m = Math.min(m, x); }
    return RealOps.r(m);
  }
  public static Value VMax(Value v) {
    double m = Double.NEGATIVE_INFINITY;
    for (double x : vec(v)) { if (Double.isNaN(x)) return RealOps.r(x); m = Math.max(m, x); }
    return RealOps.r(m);
  }
  public static Value VSum(Value v) {
    double s = 0;
    for (double x : vec(v)) s += x;
    return RealOps.r(s);
  }
  public static Value VFinite(Value v) {
    for (double x : vec(v)) if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value VClose(Value v, Value u, Value rt, Value at) {
    double[] a = vec(v), b = vec(u);
    double r = RealOps.d(rt), t = RealOps.d(at);
    if (a.length != b.length) return BoolValue.ValFalse;
    for (int i = 0; i < a.length; i++)
      if (!(a[i] == b[i] || Math.abs(a[i] - b[i]) <= r * Math.max(Math.abs(a[i]), Math.abs(b[i])) + t))
        return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value VMul(Value v, Value u) {
    double[] a = vec(v), b = vec(u);
    double[] o = new double[Math.min(a.length, b.length)];
    for (int i = 0; i < o.length; i++) o[i] = a[i] * b[i];
    return out(o);
  }
  public static Value VDiv(Value v, Value u) {
    double[] a = vec(v), b = vec(u);
    double[] o = new double[Math.min(a.length, b.length)];
    for (int i = 0; i < o.length; i++) o[i] = a[i] / b[i];
    return out(o);
  }
  public static Value VSub(Value v, IntValue from, IntValue to) {
    double[] a = vec(v);
    int lo = Math.max(0, from.val - 1), hi = Math.min(a.length, to.val);
    return out(hi > lo ? Arrays.copyOfRange(a, lo, hi) : new double[0]);
  }

  public static Value OccupiedIntegrals(Value model, Value grad, Value fs, Value env, Value box,
                                        Value mesh, Value eps) {
    Scope s = new Scope(env);
    F e = s.f(model);
    F[] g = s.fs(grad), f = s.fs(fs);
    double lev = RealOps.d(eps);
    Value[] bx = seq(box), ms = seq(mesh);
    double[] lo = new double[3], h = new double[3];
    int[] n = new int[3];
    double cell = 1;
    for (int i = 0; i < 3; i++) {
      Value[] p = seq(bx[i]);
      lo[i] = RealOps.d(p[0]);
      double hi = RealOps.d(p[1]);
      if (hi == lo[i]) { n[i] = 1; h[i] = 0; }
      else { n[i] = ((IntValue) ms[i]).val; h[i] = (hi - lo[i]) / n[i]; cell *= h[i]; }
    }
    double[] x = s.x, acc = new double[f.length];
    for (int i = 0; i < n[0]; i++) {
      x[0] = lo[0] + (i + 0.5) * h[0];
      for (int j = 0; j < n[1]; j++) {
        x[1] = lo[1] + (j + 0.5) * h[1];
        for (int k = 0; k < n[2]; k++) {
          x[2] = lo[2] + (k + 0.5) * h[2];
          double d = e.at(x) - lev;
          double w = 0;
          for (int q = 0; q < 3; q++) if (h[q] != 0) w += Math.abs(g[q].at(x)) * h[q];
          double frac = w == 0 ? (d <= 0 ? 1 : 0) : Math.max(0, Math.min(1, 0.5 - d / w));
          if (frac > 0) for (int q = 0; q < f.length; q++) acc[q] += frac * f[q].at(x);
        }
      }
    }
    for (int q = 0; q < f.length; q++) acc[q] *= cell;
    return out(acc);
  }

  public static Value SurfaceFluxes(Value gs, Value grad, Value env, Value kx, Value ky, Value kz,
                                    Value w, IntValue dims) {
    Scope s = new Scope(env);
    F[] g = s.fs(grad);
    Value[] fields = seq(gs);
    F[][] G = new F[fields.length][];
    for (int q = 0; q < G.length; q++) G[q] = s.fs(fields[q]);
    double[][] k = {vec(kx), vec(ky), vec(kz)};
    double[] ww = vec(w);
    double[] flux = new double[G.length], abs = new double[G.length], tot = new double[G.length];
    if (k[0].length != ww.length || k[1].length != ww.length || k[2].length != ww.length)
      Arrays.fill(flux, Double.NaN);
    else
      for (int i = 0; i < ww.length; i++) {
        for (int q = 0; q < 3; q++) s.x[q] = k[q][i];
        double[] v = new double[3];
        double nn = 0;
        for (int q = 0; q < dims.val; q++) { v[q] = g[q].at(s.x); nn += v[q] * v[q]; }
        nn = Math.sqrt(nn);
        for (int q = 0; q < G.length; q++) {
          double d = 0, t = 0;
          for (int p = 0; p < dims.val; p++) {
            double y = G[q][p].at(s.x);
            d += y * v[p];
            t += y * y;
          }
          flux[q] += ww[i] * d / nn;
          abs[q] += ww[i] * Math.abs(d) / nn;
          tot[q] += ww[i] * Math.sqrt(t);
        }
      }
    Value[] o = new Value[G.length];
    for (int q = 0; q < o.length; q++) o[q] = new TupleValue(new Value[] {RealOps.r(flux[q]), RealOps.r(abs[q]), RealOps.r(tot[q])});
    return new TupleValue(o);
  }

  public static Value CountOccupied(Value model, Value env, Value box, Value mesh, Value tol) {
    Scope s = new Scope(env);
    F e = s.f(model);
    double t = RealOps.d(tol);
    Value[] bx = seq(box), ms = seq(mesh);
    double[] lo = new double[3], hi = new double[3];
    int[] n = new int[3];
    for (int i = 0; i < 3; i++) {
      Value[] p = seq(bx[i]);
      lo[i] = RealOps.d(p[0]);
      hi[i] = RealOps.d(p[1]);
      n[i] = ((IntValue) ms[i]).val;
    }
    Value[] o = new Value[n[2]];
    for (int k = 0; k < n[2]; k++) {
      s.x[2] = at(lo[2], hi[2], n[2], k);
      int sure = 0, maybe = 0;
      for (int i = 0; i < n[0]; i++) {
        s.x[0] = at(lo[0], hi[0], n[0], i);
        for (int j = 0; j < n[1]; j++) {
          s.x[1] = at(lo[1], hi[1], n[1], j);
          double d = e.at(s.x);
          if (d < -t) sure++;
          else if (d <= t) maybe++;
        }
      }
      o[k] = new TupleValue(IntValue.gen(sure), IntValue.gen(maybe));
    }
    return new TupleValue(o);
  }
  /** Values of e with names[i] bound to vecs[i][p], for every p. */
  public static Value EvalOver(Value e, Value env, Value names, Value vecs) {
    Scope s = new Scope(env);
    Value[] ns = seq(names), vs = seq(vecs);
    double[][] v = new double[ns.length][];
    int[] at = new int[ns.length];
    List<Double> more = new ArrayList<>();
    int n = s.x.length;
    for (int i = 0; i < ns.length; i++) {
      v[i] = vec(vs[i]);
      Integer j = s.ix.get(str(ns[i]));
      if (j == null) { j = n++; s.ix.put(str(ns[i]), j); }
      at[i] = j;
    }
    s.x = Arrays.copyOf(s.x, n);
    F f = s.f(e);
    int len = ns.length == 0 ? 0 : v[0].length;
    for (double[] w : v) if (w.length != len) return out(new double[0]);
    double[] o = new double[len];
    for (int p = 0; p < len; p++) {
      for (int i = 0; i < at.length; i++) s.x[at[i]] = v[i][p];
      o[p] = f.at(s.x);
    }
    return out(o);
  }

  /** See Integrals.tla. */
  public static Value OrbitSteps(Value rhs, Value env, Value kx, Value ky, Value kz, Value dt, IntValue sub) {
    Scope s = new Scope(env);
    F[] g = s.fs(rhs);
    double[][] k = {vec(kx), vec(ky), vec(kz)};
    int n = k[0].length;
    double[][] o = new double[3][n];
    double h = RealOps.d(dt) / sub.val;
    double[] y = new double[3];
    for (int p = 0; p < n; p++) {
      for (int q = 0; q < 3; q++) y[q] = k[q][p];
      for (int i = 0; i < sub.val; i++) rk4(s, g, y, h);
      for (int q = 0; q < 3; q++) o[q][p] = y[q];
    }
    return new TupleValue(new Value[] {out(o[0]), out(o[1]), out(o[2])});
  }
  static void rk4(Scope s, F[] g, double[] y, double h) {
    double[] k1 = new double[3], k2 = new double[3], k3 = new double[3], k4 = new double[3];
    der(s, g, y, null, 0, k1);
    der(s, g, y, k1, h / 2, k2);
    der(s, g, y, k2, h / 2, k3);
    der(s, g, y, k3, h, k4);
    for (int q = 0; q < 3; q++) y[q] += h / 6 * (k1[q] + 2 * k2[q] + 2 * k3[q] + k4[q]);
  }
  static void der(Scope s, F[] g, double[] y, double[] d, double h, double[] out) {
    for (int q = 0; q < 3; q++) s.x[q] = d == null ? y[q] : y[q] + h * d[q];
    double a = g[0].at(s.x), b = g[1].at(s.x), c = g[2].at(s.x);
    out[0] = a; out[1] = b; out[2] = c;
  }

  public static Value Orbits(Value rhs, Value env, Value kx, Value ky, Value kz, Value dt, IntValue n, IntValue sub) {
    Scope s = new Scope(env);
    F[] g = s.fs(rhs);
    double[][] k = {vec(kx), vec(ky), vec(kz)};
    int m = k[0].length;
    double[][] o = new double[3][m * n.val];
    double h = RealOps.d(dt) / sub.val;
    double[] y = new double[3];
    for (int p = 0; p < m; p++) {
      for (int q = 0; q < 3; q++) y[q] = k[q][p];
      for (int t = 0; t < n.val; t++) {
        for (int q = 0; q < 3; q++) o[q][p * n.val + t] = y[q];
        for (int i = 0; i < sub.val; i++) rk4(s, g, y, h);
      }
    }
    return new TupleValue(new Value[] {out(o[0]), out(o[1]), out(o[2])});
  }

  public static Value ChambersSum(Value w, Value vx, Value vy, Value vz, Value gamma, IntValue n, Value dt) {
    double[] ww = vec(w), g = vec(gamma);
    double[][] v = {vec(vx), vec(vy), vec(vz)};
    double h = RealOps.d(dt);
    int m = n.val;
    double[][] acc = new double[3][3];
    boolean ok = g.length == ww.length * m && v[0].length == g.length && v[1].length == g.length && v[2].length == g.length;
    for (int p = 0; ok && p < ww.length; p++) {
      double[] orb = new double[3];
      double sum = 0;
      for (int t = 0; t < m; t++) {
        if (t > 0) sum += g[p * m + t] * h;
        double d = Math.exp(-sum) * h;
        for (int j = 0; j < 3; j++) orb[j] += v[j][p * m + t] * d;
      }
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) acc[i][j] += ww[p] * v[i][p * m] * orb[j];
    }
    Value[] rows = new Value[3];
    for (int i = 0; i < 3; i++) rows[i] = out(ok ? acc[i] : new double[] {Double.NaN, Double.NaN, Double.NaN});
    return new TupleValue(rows);
  }

  static double at(double lo, double hi, int n, int i) {
    return n == 1 ? lo : lo + i * ((hi - lo) / (n - 1));
  }
}
