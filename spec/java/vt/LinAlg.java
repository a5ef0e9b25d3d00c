package vt;

import static vt.IEEE.b;
import static vt.IEEE.d;
import static vt.IEEE.v;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerated evaluation of the operators defined in LinAlg.tla (same order of operations). */
public class LinAlg {
  static Value[] el(Value x) {
    TupleValue t = (TupleValue) x.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + x);
    return t.elems;
  }
  static double[] vec(Value x) {
    Value[] e = el(x);
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
    return r;
  }
  static Value mk(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  interface Op { double f(double a, double b); }
  static Value zip(Value a, Value b, Op o) {
    double[] x = vec(a), y = vec(b);
    if (y.length < x.length) throw new RuntimeException("vector lengths " + x.length + " " + y.length);
    for (int i = 0; i < x.length; i++) x[i] = o.f(x[i], y[i]);
    return mk(x);
  }
  static double dot(double[] x, double[] y) {
    double s = 0;
    for (int i = 0; i < x.length; i++) s += x[i] * y[i];
    return s;
  }
  @TLAPlusOperator(identifier = "VDot", module = "LinAlg", warn = false) public static Value vdot(Value a, Value b) { return v(dot(vec(a), vec(b))); }
  @TLAPlusOperator(identifier = "VAdd", module = "LinAlg", warn = false) public static Value vadd(Value a, Value b) { return zip(a, b, (x, y) -> x + y); }
  @TLAPlusOperator(identifier = "VSub", module = "LinAlg", warn = false) public static Value vsub(Value a, Value b) { return zip(a, b, (x, y) -> x - y); }
  @TLAPlusOperator(identifier = "VHad", module = "LinAlg", warn = false) public static Value vhad(Value a, Value b) { return zip(a, b, (x, y) -> x * y); }
  @TLAPlusOperator(identifier = "VQuo", module = "LinAlg", warn = false) public static Value vquo(Value a, Value b) { return zip(a, b, (x, y) -> x / y); }
  @TLAPlusOperator(identifier = "VScale", module = "LinAlg", warn = false) public static Value vscale(Value k, Value a) {
    double c = d(k); double[] x = vec(a);
    for (int i = 0; i < x.length; i++) x[i] = c * x[i];
    return mk(x);
  }
  @TLAPlusOperator(identifier = "VNeg", module = "LinAlg", warn = false) public static Value vneg(Value a) {
    double[] x = vec(a);
    for (int i = 0; i < x.length; i++) x[i] = -x[i];
    return mk(x);
  }
  @TLAPlusOperator(identifier = "VAbs", module = "LinAlg", warn = false) public static Value vabs(Value a) {
    double[] x = vec(a);
    for (int i = 0; i < x.length; i++) x[i] = Math.abs(x[i]);
    return mk(x);
  }
  @TLAPlusOperator(identifier = "VNorm", module = "LinAlg", warn = false) public static Value vnorm(Value a) { double[] x = vec(a); return v(Math.sqrt(dot(x, x))); }
  @TLAPlusOperator(identifier = "VMax", module = "LinAlg", warn = false) public static Value vmax(Value a) {
    double[] x = vec(a); double m = x[0];
    for (int i = 1; i < x.length; i++) if (m < x[i]) m = x[i];
    return v(m);
  }
  @TLAPlusOperator(identifier = "VMin", module = "LinAlg", warn = false) public static Value vmin(Value a) {
    double[] x = vec(a); double m = x[0];
    for (int i = 1; i < x.length; i++) if (x[i] < m) m = x[i];
    return v(m);
  }
  @TLAPlusOperator(identifier = "VLe", module = "LinAlg", warn = false) public static Value vle(Value a, Value b) {
    double[] x = vec(a), y = vec(b);
    for (int i = 0; i < x.length; i++) if (!(x[i] <= y[i])) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "VPos", module = "LinAlg", warn = false) public static Value vpos(Value a) {
    for (double x : vec(a)) if (!(0 < x)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "VFinite", module = "LinAlg", warn = false) public static Value vfinite(Value a) {
    for (double x : vec(a)) if (!Double.isFinite(x)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  static Value sp(Value M, Value X, Value N, boolean tr, boolean ab) {
    Value[] t = el(M);
    double[] x = vec(X), y = new double[((IntValue) N).val];
    for (Value k : t) {
      Value[] e = el(k);
      int i = ((IntValue) e[tr ? 1 : 0]).val - 1, j = ((IntValue) e[tr ? 0 : 1]).val - 1;
      double w = d(e[2]);
      if (ab) y[i] += Math.abs(w) * Math.abs(x[j]); else y[i] += w * x[j];
    }
    return mk(y);
  }
  @TLAPlusOperator(identifier = "SpMul", module = "LinAlg", warn = false) public static Value spmul(Value M, Value x, Value n) { return sp(M, x, n, false, false); }
  @TLAPlusOperator(identifier = "SpMulT", module = "LinAlg", warn = false) public static Value spmult(Value M, Value x, Value n) { return sp(M, x, n, true, false); }
  @TLAPlusOperator(identifier = "SpMulA", module = "LinAlg", warn = false) public static Value spmula(Value M, Value x, Value n) { return sp(M, x, n, false, true); }
  @TLAPlusOperator(identifier = "SpMulTA", module = "LinAlg", warn = false) public static Value spmulta(Value M, Value x, Value n) { return sp(M, x, n, true, true); }

  static double[][] mat(Value M) {
    Value[] r = el(M);
    double[][] a = new double[r.length][];
    for (int i = 0; i < r.length; i++) a[i] = vec(r[i]);
    return a;
  }
  @TLAPlusOperator(identifier = "Dense", module = "LinAlg", warn = false) public static Value dense(Value M, Value NR, Value NC) {
    int nr = ((IntValue) NR).val, nc = ((IntValue) NC).val;
    double[][] a = new double[nr][nc];
    for (Value k : el(M)) {
      Value[] e = el(k);
      a[((IntValue) e[0]).val - 1][((IntValue) e[1]).val - 1] += d(e[2]);
    }
    Value[] r = new Value[nr];
    for (int i = 0; i < nr; i++) r[i] = mk(a[i]);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "RegElim", module = "LinAlg", warn = false) public static Value regelim(Value MM, Value PP) {
    double[][] M = mat(MM);
    Value[] pe = el(PP);
    int N = M.length;
    int[] p = new int[N];
    double big = 0, bigg = 0;
    for (int i = 0; i < N; i++) p[i] = ((IntValue) pe[i]).val - 1;
    double[][] a = new double[N][N], g = new double[N][N];
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        a[i][j] = M[p[i]][p[j]];
        g[i][j] = Math.abs(a[i][j]);
        big = Math.max(big, g[i][j]);
      }
    double[] e = new double[N], dd = new double[N];
    boolean amb = false;
    for (int k = 0; k < N; k++) {
      double pv = a[k][k], q = pv;
      if (pv != 0 ? Math.abs(pv) <= 1e-9 * g[k][k] : g[k][k] != 0) amb = true;
      if (Math.abs(pv) <= 1e-14) {
        q = pv <= 0 ? -1e-7 : 1e-7;
        e[p[k]] = q - pv;
      }
      dd[k] = q;
      for (int i = k + 1; i < N; i++) {
        double w = a[i][k] / q;
        if (w == 0) continue;
        for (int j = k + 1; j < N; j++) {
          double t = w * a[k][j];
          a[i][j] -= t;
          g[i][j] += Math.abs(t);
        }
      }
    }
    for (double[] r : g) for (double w : r) bigg = Math.max(bigg, w);
    return new RecordValue(
        new util.UniqueString[] { util.UniqueString.of("e"), util.UniqueString.of("d"), util.UniqueString.of("amb"), util.UniqueString.of("growth") },
        new Value[] { mk(e), mk(dd), IEEE.b(amb), v(bigg / big) }, false);
  }
}
