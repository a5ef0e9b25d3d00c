package vt;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Solve of LinAlg.tla: row-equilibrated Gaussian elimination with partial pivoting and iterative refinement. */
public class Solver {
  static double[] lu(double[][] A, double[] b) {
    int n = b.length;
    double[][] L = new double[n][];
    int[] p = new int[n];
    double[] sc = new double[n];
    for (int i = 0; i < n; i++) {
      L[i] = A[i].clone();
      p[i] = i;
      for (double w : L[i]) sc[i] = Math.max(sc[i], Math.abs(w));
      if (!(sc[i] > 0) || Double.isInfinite(sc[i])) return null;
      for (int j = 0; j < n; j++) L[i][j] /= sc[i];
    }
    for (int k = 0; k < n; k++) {
      int q = k;
      for (int i = k + 1; i < n; i++) if (Math.abs(L[i][k]) > Math.abs(L[q][k])) q = i;
      if (!(Math.abs(L[q][k]) > 1e-300)) return null;
      double[] t = L[q]; L[q] = L[k]; L[k] = t;
      int u = p[q]; p[q] = p[k]; p[k] = u;
      for (int i = k + 1; i < n; i++) {
        double f = L[i][k] / L[k][k];
        L[i][k] = f;
        if (f != 0) for (int j = k + 1; j < n; j++) L[i][j] -= f * L[k][j];
      }
    }
    double[] x = new double[n];
    for (int it = 0; it < 3; it++) {
      double[] r = new double[n];
      for (int i = 0; i < n; i++) {
        double hi = b[i], lo = 0;
        for (int j = 0; j < n; j++) {
          double pr = -A[i][j] * x[j], e = Math.fma(-A[i][j], x[j], -pr);
          double t = hi + pr, bb = t - hi;
          lo += (hi - (t - bb)) + (pr - bb) + e;
          hi = t;
        }
        r[i] = hi + lo;
      }
      double[] y = new double[n];
      for (int i = 0; i < n; i++) {
        double s = r[p[i]] / sc[p[i]];
        for (int j = 0; j < i; j++) s -= L[i][j] * y[j];
        y[i] = s;
      }
      for (int i = n - 1; i >= 0; i--) {
        double s = y[i];
        for (int j = i + 1; j < n; j++) s -= L[i][j] * y[j];
        y[i] = s / L[i][i];
      }
      for (int i = 0; i < n; i++) x[i] += y[i];
    }
    for (double w : x) if (!Double.isFinite(w)) return null;
    return x;
  }
  @TLAPlusOperator(identifier = "Solve", module = "LinAlg", warn = false)
  public static Value solve(Value M, Value B) {
    Value[] r = LinAlg.el(M);
    double[][] A = new double[r.length][];
    for (int i = 0; i < r.length; i++) A[i] = LinAlg.vec(r[i]);
    double[] x = lu(A, LinAlg.vec(B));
    return x == null ? new TupleValue(new Value[0]) : LinAlg.mk(x);
  }
}
