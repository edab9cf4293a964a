// Java implementation of the operators of Num.tla (TLC loads it by name).
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import tlc2.value.IBoolValue;

public class Num {
  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  // A number: exact big decimal, or a non-finite double.
  static final class N {
    final BigDecimal v; final double d;
    N(BigDecimal v) { this.v = v; this.d = 0; }
    N(double d) { this.v = null; this.d = d; }
    double dbl() { return v != null ? v.doubleValue() : d; }
    boolean nan() { return v == null && Double.isNaN(d); }
  }
  static final N NAN = new N(Double.NaN);
  static final N ZERO = new N(BigDecimal.ZERO);
  static final ConcurrentHashMap<String,N> cache = new ConcurrentHashMap<>();

  static N parse(String s) {
    N n = cache.get(s);
    if (n != null) return n;
    n = parse0(s);
    if (cache.size() > 2000000) cache.clear();
    cache.put(s, n);
    return n;
  }
  static N of(double d) {
    if (Double.isNaN(d) || Double.isInfinite(d)) return new N(d);
    return new N(new BigDecimal(d));
  }
  static N parse0(String s) {
    switch (s) {
      case "NaN": return NAN;
      case "Inf": return new N(Double.POSITIVE_INFINITY);
      case "-Inf": return new N(Double.NEGATIVE_INFINITY);
    }
    if (s.indexOf('x') >= 0) return of(Double.parseDouble(s));
    int k = s.indexOf('/');
    if (k > 0) return new N(new BigDecimal(s.substring(0,k).trim()).divide(new BigDecimal(s.substring(k+1).trim()), MC));
    return new N(new BigDecimal(s));
  }
  static N num(Value v) {
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    if (v instanceof IntValue) return new N(BigDecimal.valueOf(((IntValue) v).val));
    throw new RuntimeException("Num: not a number: " + v);
  }
  static Value out(N n) {
    String s;
    if (n.v == null) s = Double.isNaN(n.d) ? "NaN" : n.d > 0 ? "Inf" : "-Inf";
    else s = n.v.toString();
    cache.putIfAbsent(s, n);
    return new StringValue(s);
  }
  static N fin(BigDecimal b) {
    // keep exponents bounded: flush what is far below any double
    if (b.signum() == 0) return ZERO;
    int e = b.precision() - b.scale();
    if (e < -2000) return ZERO;
    if (e > 2000) return new N(b.signum() > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY);
    return new N(b);
  }
  static N add(N a, N b) { return a.v != null && b.v != null ? fin(a.v.add(b.v, MC)) : of(a.dbl() + b.dbl()); }
  static N sub(N a, N b) { return a.v != null && b.v != null ? fin(a.v.subtract(b.v, MC)) : of(a.dbl() - b.dbl()); }
  static N mul(N a, N b) {
    if (a.v != null && b.v != null) return fin(a.v.multiply(b.v, MC));
    return of(a.dbl() * b.dbl());
  }
  static N div(N a, N b) {
    if (a.v != null && b.v != null) return b.v.signum() == 0 ? NAN : fin(a.v.divide(b.v, MC));
    return of(a.dbl() / b.dbl());
  }
  static N abs(N a) { return a.v != null ? new N(a.v.abs()) : of(Math.abs(a.d)); }
  static int cmp(N a, N b) { // neither NaN
    if (a.v != null && b.v != null) return a.v.compareTo(b.v);
    return Double.compare(a.v != null ? Math.max(-1e300, Math.min(1e300, a.dbl())) : a.d,
                          b.v != null ? Math.max(-1e300, Math.min(1e300, b.dbl())) : b.d);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RAdd(Value a, Value b) { return out(add(num(a), num(b))); }
  public static Value RSub(Value a, Value b) { return out(sub(num(a), num(b))); }
  public static Value RMul(Value a, Value b) { return out(mul(num(a), num(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(num(a), num(b))); }
  public static Value RPow(Value a, Value b) { return out(of(Math.pow(num(a).dbl(), num(b).dbl()))); }
  public static Value RSqrt(Value a) {
    N n = num(a);
    if (n.v == null) return out(of(Math.sqrt(n.d)));
    if (n.v.signum() < 0) return out(NAN);
    return out(fin(n.v.sqrt(MC)));
  }
  public static Value RAbs(Value a) { return out(abs(num(a))); }
  public static Value RInt(Value a) { return out(num(a)); }
  public static Value RDbl(Value a) { return out(of(num(a).dbl())); }
  public static Value RLt(Value a, Value b) { N x = num(a), y = num(b); return bool(!x.nan() && !y.nan() && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value b) { N x = num(a), y = num(b); return bool(!x.nan() && !y.nan() && cmp(x, y) <= 0); }
  public static Value RFin(Value a) { return bool(num(a).v != null); }
  public static Value RShow(Value a) {
    N n = num(a);
    return new StringValue(n.v == null ? (Double.isNaN(n.d) ? "NaN" : n.d > 0 ? "Inf" : "-Inf")
        : n.v.round(new MathContext(17)).toString());
  }

  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + v);
    return t.elems;
  }
  static void same(Value[] a, Value[] b) {
    if (a.length != b.length) throw new RuntimeException("Num: lengths differ: " + a.length + " and " + b.length);
  }
  public static Value RSum(Value u) {
    N s = ZERO;
    for (Value x : seq(u)) s = add(s, num(x));
    return out(s);
  }
  public static Value RDot(Value u, Value v) {
    Value[] a = seq(u), b = seq(v); same(a, b);
    N s = ZERO;
    for (int i = 0; i < a.length; ++i) s = add(s, mul(num(a[i]), num(b[i])));
    return out(s);
  }
  public static Value RDotAbs(Value u, Value v) {
    Value[] a = seq(u), b = seq(v); same(a, b);
    N s = ZERO;
    for (int i = 0; i < a.length; ++i) s = add(s, abs(mul(num(a[i]), num(b[i]))));
    return out(s);
  }
  public static Value RMaxAbs(Value u) {
    N s = ZERO;
    for (Value x : seq(u)) { N n = abs(num(x)); if (n.nan()) return out(NAN); if (cmp(s, n) < 0) s = n; }
    return out(s);
  }
  interface Op { N f(N a, N b); }
  static Value zip(Value u, Value v, Op f) {
    Value[] a = seq(u), b = seq(v); same(a, b);
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; ++i) r[i] = out(f.f(num(a[i]), num(b[i])));
    return new TupleValue(r);
  }
  public static Value VAdd(Value u, Value v) { return zip(u, v, Num::add); }
  public static Value VSub(Value u, Value v) { return zip(u, v, Num::sub); }
  public static Value VMul(Value u, Value v) { return zip(u, v, Num::mul); }
  public static Value VScale(Value s, Value v) {
    N n = num(s);
    Value[] a = seq(v), r = new Value[a.length];
    for (int i = 0; i < a.length; ++i) r[i] = out(mul(n, num(a[i])));
    return new TupleValue(r);
  }
  public static Value VAbs(Value v) {
    Value[] a = seq(v), r = new Value[a.length];
    for (int i = 0; i < a.length; ++i) r[i] = out(abs(num(a[i])));
    return new TupleValue(r);
  }
  static Value lin(Value c, Value us, boolean ab) {
    Value[] a = seq(c), u = seq(us); same(a, u);
    int n = seq(u[0]).length;
    N[] r = new N[n];
    java.util.Arrays.fill(r, ZERO);
    for (int j = 0; j < a.length; ++j) {
      N f = num(a[j]);
      Value[] w = seq(u[j]);
      if (w.length != n) throw new RuntimeException("Num: VLin: lengths differ");
      for (int i = 0; i < n; ++i) { N x = mul(f, num(w[i])); r[i] = add(r[i], ab ? abs(x) : x); }
    }
    Value[] o = new Value[n];
    for (int i = 0; i < n; ++i) o[i] = out(r[i]);
    return new TupleValue(o);
  }
  public static Value VLin(Value c, Value us) { return lin(c, us, false); }
  public static Value VLinAbs(Value c, Value us) { return lin(c, us, true); }
  public static Value VFin(Value v) {
    for (Value x : seq(v)) if (num(x).v == null) return bool(false);
    return bool(true);
  }
  public static Value VSolve(Value A, Value b) {
    Value[] rows = seq(A), rhs = seq(b);
    int n = rhs.length;
    N[][] m = new N[n][n + 1];
    for (int i = 0; i < n; ++i) {
      Value[] r = seq(rows[i]);
      for (int j = 0; j < n; ++j) m[i][j] = num(r[j]);
      m[i][n] = num(rhs[i]);
    }
    Value[] x = new Value[n];
    for (int i = 0; i < n; ++i) for (int j = 0; j <= n; ++j) if (m[i][j].v == null) return nans(n);
    for (int k = 0; k < n; ++k) {
      int p = k;
      for (int i = k + 1; i < n; ++i) if (cmp(abs(m[p][k]), abs(m[i][k])) < 0) p = i;
      if (m[p][k].v.signum() == 0) return nans(n);
      N[] t = m[p]; m[p] = m[k]; m[k] = t;
      for (int i = k + 1; i < n; ++i) {
        if (m[i][k].v.signum() == 0) continue;
        N f = div(m[i][k], m[k][k]);
        for (int j = k; j <= n; ++j) m[i][j] = sub(m[i][j], mul(f, m[k][j]));
      }
    }
    N[] s = new N[n];
    for (int k = n - 1; k >= 0; --k) {
      N a = m[k][n];
      for (int j = k + 1; j < n; ++j) a = sub(a, mul(m[k][j], s[j]));
      s[k] = div(a, m[k][k]);
      x[k] = out(s[k]);
    }
    return new TupleValue(x);
  }
  static Value nans(int n) {
    Value[] x = new Value[n];
    for (int i = 0; i < n; ++i) x[i] = new StringValue("NaN");
    return new TupleValue(x);
  }
}
