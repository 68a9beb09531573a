import tlc2.value.impl.*;
import tlc2.value.IValue;
import java.util.concurrent.ConcurrentHashMap;
/* Java evaluation of the operators of spec/Reals.tla */
public class Reals {
  static final ConcurrentHashMap<String, double[]> cache = new ConcurrentHashMap<>();
  static double[] parse(String s) {
    s = s.trim();
    if (s.isEmpty()) return new double[0];
    String[] p = s.split(" +");
    double[] d = new double[p.length];
    for (int i = 0; i < d.length; i++) {
      String q = p[i];
      d[i] = q.equals("nan") || q.equals("-nan") ? Double.NaN : q.equals("inf") ? Double.POSITIVE_INFINITY : q.equals("-inf") ? Double.NEGATIVE_INFINITY : Double.parseDouble(q);
    }
    return d;
  }
  static double[] vec(Value v) {
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      double[] d = cache.get(s);
      if (d == null) { d = parse(s); if (cache.size() > 200000) cache.clear(); cache.put(s, d); }
      return d;
    }
    if (v instanceof IntValue) return new double[] { ((IntValue) v).val };
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a vector: " + v);
    Value[] e = ((TupleValue) t).elems;
    double[] d = new double[e.length / 2];
    for (int i = 0; i < d.length; i++)
      d[i] = Double.longBitsToDouble(((long) ((IntValue) e[2 * i]).val << 32) | (((IntValue) e[2 * i + 1]).val & 0xffffffffL));
    return d;
  }
  static double num(Value v) { double[] d = vec(v); if (d.length != 1) throw new RuntimeException("not a number: " + v); return d[0]; }
  static Value mk(double... d) {
    Value[] e = new Value[2 * d.length];
    for (int i = 0; i < d.length; i++) { long b = Double.doubleToRawLongBits(d[i]); e[2 * i] = IntValue.gen((int) (b >> 32)); e[2 * i + 1] = IntValue.gen((int) b); }
    return new TupleValue(e);
  }
  static int[] ints(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int[] r = new int[e.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val;
    return r;
  }
  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static int in(Value v) { return ((IntValue) v).val; }
  static void check(boolean b, String w) { if (!b) throw new RuntimeException("Reals: sizes do not fit in " + w); }

  public static Value VLen(Value x) { return IntValue.gen(vec(x).length); }
  public static Value VZero(Value n) { return mk(new double[in(n)]); }
  public static Value VUnit(Value n, Value i) { double[] d = new double[in(n)]; d[in(i)] = 1; return mk(d); }
  public static Value VLin(Value a, Value x, Value b, Value y) {
    double s = num(a), t = num(b); double[] u = vec(x), v = vec(y); check(u.length == v.length, "VLin");
    double[] r = new double[u.length];
    for (int i = 0; i < r.length; i++) r[i] = s * u[i] + t * v[i];
    return mk(r);
  }
  public static Value MatVec2(Value A, Value x) {
    double[] a = vec(A), u = vec(x); int w = u.length; if (w == 0) return mk();
    check(a.length % w == 0, "MatVec"); double[] r = new double[a.length / w];
    for (int i = 0; i < r.length; i++) { double s = 0; for (int j = 0; j < w; j++) s += a[i * w + j] * u[j]; r[i] = s; }
    return mk(r);
  }
  public static Value MatTVec(Value A, Value x) {
    double[] a = vec(A), u = vec(x); int h = u.length; if (h == 0) return mk();
    check(a.length % h == 0, "MatTVec"); int w = a.length / h; double[] r = new double[w];
    for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) r[j] += a[i * w + j] * u[i];
    return mk(r);
  }
  public static Value Comb(Value n, Value cols, Value x) {
    Value[] c = seq(cols); double[] u = vec(x); check(c.length == u.length, "Comb"); double[] r = new double[in(n)];
    for (int k = 0; k < c.length; k++) { double[] q = vec(c[k]); check(q.length == r.length, "Comb"); for (int i = 0; i < r.length; i++) r[i] += u[k] * q[i]; }
    return mk(r);
  }
  public static Value Gather(Value x, Value ids, Value bs) {
    double[] u = vec(x); int[] d = ints(ids); int b = in(bs); double[] r = new double[d.length * b];
    for (int i = 0; i < d.length; i++) for (int k = 0; k < b; k++) r[i * b + k] = u[d[i] * b + k];
    return mk(r);
  }
  public static Value Scatter(Value n, Value x, Value ids, Value bs) {
    double[] u = vec(x); int[] d = ints(ids); int b = in(bs); check(u.length == d.length * b, "Scatter"); double[] r = new double[in(n)];
    for (int i = 0; i < d.length; i++) for (int k = 0; k < b; k++) r[d[i] * b + k] += u[i * b + k];
    return mk(r);
  }
  public static Value Pick(Value bits, Value bs, Value x, Value y) {
    int[] f = ints(bits); int b = in(bs); double[] u = vec(x), v = vec(y), r = new double[u.length]; check(u.length == v.length && u.length == f.length * b, "Pick");
    for (int i = 0; i < r.length; i++) r[i] = f[i / b] == 1 ? u[i] : v[i];
    return mk(r);
  }
  public static Value VSame(Value x, Value y) {
    double[] u = vec(x), v = vec(y); if (u.length != v.length) return BoolValue.ValFalse;
    for (int i = 0; i < u.length; i++) if (!(u[i] == v[i])) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value VClose(Value x, Value y, Value tol, Value s) {
    double[] u = vec(x), v = vec(y); if (u.length != v.length) return BoolValue.ValFalse;
    double m = 1 + Math.abs(num(s)), d = 0;
    for (int i = 0; i < u.length; i++) {
      if (Double.isNaN(u[i]) || Double.isNaN(v[i]) || Double.isInfinite(u[i]) || Double.isInfinite(v[i])) return BoolValue.ValFalse;
      m = Math.max(m, 1 + Math.max(Math.abs(u[i]), Math.abs(v[i]))); d = Math.max(d, Math.abs(u[i] - v[i])); }
    return d <= num(tol) * m ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  static double[] solve(double[] a0, double[] r0) {
    int n = r0.length; check(a0.length == n * n, "Solve"); double[] a = a0.clone(), r = r0.clone();
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k; i < n; i++) if (Math.abs(a[i * n + k]) > Math.abs(a[p * n + k])) p = i;
      if (p != k) { for (int j = 0; j < n; j++) { double t = a[k * n + j]; a[k * n + j] = a[p * n + j]; a[p * n + j] = t; } double t = r[k]; r[k] = r[p]; r[p] = t; }
      for (int i = k + 1; i < n; i++) { double f = a[i * n + k] / a[k * n + k]; if (f != 0) { for (int j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j]; r[i] -= f * r[k]; } }
    }
    for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) r[k] -= a[k * n + j] * r[j]; r[k] /= a[k * n + k]; }
    return r;
  }
  public static Value Solve(Value A, Value r) { return mk(solve(vec(A), vec(r))); }
  public static Value SubMat(Value A, Value n, Value ids, Value bs) {
    double[] a = vec(A); int w = in(n); int[] d = ints(ids); int b = in(bs), m = d.length * b; double[] r = new double[m * m];
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) r[i * m + j] = a[(d[i / b] * b + i % b) * w + d[j / b] * b + j % b];
    return mk(r);
  }
  public static Value Dot(Value x, Value y) { double[] u = vec(x), v = vec(y); check(u.length == v.length, "Dot"); double s = 0; for (int i = 0; i < u.length; i++) s += u[i] * v[i]; return mk(s); }
  public static Value MaxAbs(Value x) { double m = 0; for (double d : vec(x)) m = Math.max(m, Math.abs(d)); return mk(m); }
  public static Value Root(Value a) { return mk(Math.sqrt(num(a))); }
  public static Value Less(Value a, Value b) { return num(a) < num(b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value TransCols(Value n, Value cols) {
    Value[] c = seq(cols); int m = in(n); Value[] out = new Value[m]; double[][] q = new double[c.length][];
    for (int k = 0; k < c.length; k++) q[k] = vec(c[k]);
    for (int i = 0; i < m; i++) { double[] r = new double[c.length]; for (int k = 0; k < c.length; k++) r[k] = q[k][i]; out[i] = mk(r); }
    return new TupleValue(out);
  }
  public static Value MatMat(Value A, Value h, Value B, Value w) {
    double[] a = vec(A), b = vec(B); int H = in(h), W = in(w); if (H == 0 || W == 0) return mk();
    int m = a.length / H; check(m * H == a.length && m * W == b.length, "MatMat"); double[] r = new double[H * W];
    for (int i = 0; i < H; i++) for (int k = 0; k < m; k++) for (int j = 0; j < W; j++) r[i * W + j] += a[i * m + k] * b[k * W + j];
    return mk(r);
  }
  public static Value Put(Value g, Value x, Value ids, Value bs) {
    double[] r = vec(g).clone(), u = vec(x); int[] d = ints(ids); int b = in(bs); check(u.length == d.length * b, "Put");
    for (int i = 0; i < d.length; i++) for (int k = 0; k < b; k++) r[d[i] * b + k] = u[i * b + k];
    return mk(r);
  }
  public static Value MatAsm(Value N, Value M, Value ids, Value bs) {
    int n = in(N), b = in(bs); int[] d = ints(ids); double[] a = vec(M), r = new double[n * n]; int m = d.length * b; check(a.length == m * m, "MatAsm");
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) r[(d[i / b] * b + i % b) * n + d[j / b] * b + j % b] += a[i * m + j];
    return mk(r);
  }
  public static Value FromCols(Value n, Value cols) {
    Value[] c = seq(cols); int m = in(n), w = c.length; double[] r = new double[m * w];
    for (int k = 0; k < w; k++) { double[] q = vec(c[k]); check(q.length == m, "FromCols"); for (int i = 0; i < m; i++) r[i * w + k] = q[i]; }
    return mk(r);
  }
  public static Value Transp(Value n, Value M) {
    int m = in(n); double[] a = vec(M), r = new double[a.length]; if (m == 0) return mk(r); int w = a.length / m; check(m * w == a.length, "Transp");
    for (int i = 0; i < m; i++) for (int j = 0; j < w; j++) r[j * m + i] = a[i * w + j];
    return mk(r);
  }
  public static Value Inv(Value n, Value M) {
    int m = in(n); double[] a = vec(M), r = new double[m * m]; check(a.length == m * m, "Inv");
    for (int j = 0; j < m; j++) { double[] e = new double[m]; e[j] = 1; double[] c = solve(a, e); for (int i = 0; i < m; i++) r[i * m + j] = c[i]; }
    return mk(r);
  }
  public static Value VAt(Value x, Value i) { return mk(vec(x)[in(i)]); }
  // eigenvalues on the diagonal of a, eigenvectors in v (cyclic Jacobi iteration)
  static void eig(int n, double[] a, double[] v) {
    for (int i = 0; i < n; i++) v[i * n + i] = 1;
    for (int sweep = 0; sweep < 60; sweep++) {
      double off = 0, all = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { all += a[i * n + j] * a[i * n + j]; if (i != j) off += a[i * n + j] * a[i * n + j]; }
      if (off <= 1e-30 * all) break;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
        if (a[p * n + q] == 0) continue;
        double th = (a[q * n + q] - a[p * n + p]) / (2 * a[p * n + q]), t = Math.signum(th) / (Math.abs(th) + Math.sqrt(th * th + 1)); if (th == 0) t = 1;
        double c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++) { double x = a[k * n + p], y = a[k * n + q]; a[k * n + p] = c * x - s * y; a[k * n + q] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = a[p * n + k], y = a[q * n + k]; a[p * n + k] = c * x - s * y; a[q * n + k] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = v[k * n + p], y = v[k * n + q]; v[k * n + p] = c * x - s * y; v[k * n + q] = s * x + c * y; }
      }
    }
  }
  public static Value MinEig(Value n, Value A) {
    int m = in(n); double[] a = vec(A).clone(); check(a.length == m * m, "MinEig"); eig(m, a, new double[m * m]);
    double r = Double.POSITIVE_INFINITY; for (int i = 0; i < m; i++) r = Math.min(r, a[i * m + i]); return mk(r);
  }
  public static Value DiagScaled(Value n, Value A) {
    int m = in(n); double[] a = vec(A).clone(), d = new double[m]; check(a.length == m * m, "DiagScaled");
    for (int i = 0; i < m; i++) d[i] = a[i * m + i] > 0 ? Math.sqrt(a[i * m + i]) : 1;
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) a[i * m + j] /= d[i] * d[j];
    return mk(a);
  }
  public static Value PSolve(Value A, Value r0) {
    double[] a = vec(A).clone(), r = vec(r0); int n = r.length; check(a.length == n * n, "PSolve"); double[] v = new double[n * n]; eig(n, a, v);
    double mx = 0; for (int i = 0; i < n; i++) mx = Math.max(mx, Math.abs(a[i * n + i])); double[] d = new double[n];
    for (int k = 0; k < n; k++) if (Math.abs(a[k * n + k]) > 1e-9 * mx) { double s = 0; for (int i = 0; i < n; i++) s += v[i * n + k] * r[i]; s /= a[k * n + k]; for (int i = 0; i < n; i++) d[i] += s * v[i * n + k]; }
    return mk(d);
  }
}
