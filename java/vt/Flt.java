package vt;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** IEEE double arithmetic for TLC: the Java side of specs/Flt.tla. A number is
 *  an integer or a decimal string; results are canonical strings. */
public class Flt {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).val.toString();
    switch (s) {
      case "nan": case "-nan": return Double.NaN;
      case "inf": return Double.POSITIVE_INFINITY;
      case "-inf": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }
  static Value s(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
    if (x == Math.rint(x) && Math.abs(x) < 1e15) return new StringValue(Long.toString((long) x));
    return new StringValue(Double.toString(x));
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; ++i) r[i] = d(t.elems[i]);
    return r;
  }
  @TLAPlusOperator(identifier = "FNum", module = "Flt", warn = false)
  public static Value num(Value a) { return s(d(a)); }
  @TLAPlusOperator(identifier = "FAdd", module = "Flt", warn = false)
  public static Value add(Value a, Value c) { return s(d(a) + d(c)); }
  @TLAPlusOperator(identifier = "FSub", module = "Flt", warn = false)
  public static Value sub(Value a, Value c) { return s(d(a) - d(c)); }
  @TLAPlusOperator(identifier = "FMul", module = "Flt", warn = false)
  public static Value mul(Value a, Value c) { return s(d(a) * d(c)); }
  @TLAPlusOperator(identifier = "FDiv", module = "Flt", warn = false)
  public static Value div(Value a, Value c) { return s(d(a) / d(c)); }
  @TLAPlusOperator(identifier = "FNeg", module = "Flt", warn = false)
  public static Value neg(Value a) { return s(-d(a)); }
  @TLAPlusOperator(identifier = "FAbs", module = "Flt", warn = false)
  public static Value abs(Value a) { return s(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "FMax", module = "Flt", warn = false)
  public static Value max(Value a, Value c) { return s(Math.max(d(a), d(c))); }
  @TLAPlusOperator(identifier = "FMin", module = "Flt", warn = false)
  public static Value min(Value a, Value c) { return s(Math.min(d(a), d(c))); }
  @TLAPlusOperator(identifier = "FSqrt", module = "Flt", warn = false)
  public static Value sqrt(Value a) { return s(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "FSin", module = "Flt", warn = false)
  public static Value sin(Value a) { return s(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "FCos", module = "Flt", warn = false)
  public static Value cos(Value a) { return s(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "FExp", module = "Flt", warn = false)
  public static Value exp(Value a) { return s(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "FLog10", module = "Flt", warn = false)
  public static Value log10(Value a) { return s(Math.log10(d(a))); }
  @TLAPlusOperator(identifier = "FPow", module = "Flt", warn = false)
  public static Value pow(Value a, Value c) { return s(Math.pow(d(a), d(c))); }
  @TLAPlusOperator(identifier = "FLt", module = "Flt", warn = false)
  public static Value lt(Value a, Value c) { return b(d(a) < d(c)); }
  @TLAPlusOperator(identifier = "FLe", module = "Flt", warn = false)
  public static Value le(Value a, Value c) { return b(d(a) <= d(c)); }
  @TLAPlusOperator(identifier = "FEq", module = "Flt", warn = false)
  public static Value eq(Value a, Value c) { return b(d(a) == d(c)); }
  @TLAPlusOperator(identifier = "FFinite", module = "Flt", warn = false)
  public static Value fin(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  @TLAPlusOperator(identifier = "FIsNaN", module = "Flt", warn = false)
  public static Value isnan(Value a) { return b(Double.isNaN(d(a))); }
  /** |a-c| <= atol + rtol*max(|a|,|c|); NaN and infinities are close only to themselves. */
  static boolean close(double x, double y, double at, double rt) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  @TLAPlusOperator(identifier = "FClose", module = "Flt", warn = false)
  public static Value fclose(Value a, Value c, Value at, Value rt) { return b(close(d(a), d(c), d(at), d(rt))); }
  @TLAPlusOperator(identifier = "FSum", module = "Flt", warn = false)
  public static Value sum(Value v) { double r = 0; for (double x : seq(v)) r += x; return s(r); }
  @TLAPlusOperator(identifier = "FDot", module = "Flt", warn = false)
  public static Value dot(Value v, Value w) {
    double[] x = seq(v), y = seq(w);
    if (x.length != y.length) throw new RuntimeException("FDot: lengths differ");
    double r = 0; for (int i = 0; i < x.length; ++i) r += x[i] * y[i]; return s(r);
  }
  @TLAPlusOperator(identifier = "FNorm", module = "Flt", warn = false)
  public static Value norm(Value v) { double r = 0; for (double x : seq(v)) r += x * x; return s(Math.sqrt(r)); }
  @TLAPlusOperator(identifier = "FCloseSeq", module = "Flt", warn = false)
  public static Value closeSeq(Value v, Value w, Value at, Value rt) {
    double[] x = seq(v), y = seq(w);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; ++i) if (!close(x[i], y[i], d(at), d(rt))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "FCeil", module = "Flt", warn = false)
  public static Value ceil(Value a) { return IntValue.gen((int) Math.ceil(d(a))); }
  @TLAPlusOperator(identifier = "FFloor", module = "Flt", warn = false)
  public static Value floor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  /** The solution x of A x = y for a matrix given as a sequence of rows (Gauss, partial pivoting). */
  @TLAPlusOperator(identifier = "FSolve", module = "Flt", warn = false)
  public static Value solve(Value A, Value y) {
    Value[] rows = ((TupleValue) A.toTuple()).elems;
    int n = rows.length;
    double[][] m = new double[n][];
    for (int i = 0; i < n; ++i) m[i] = seq(rows[i]);
    double[] r = seq(y);
    for (int c = 0; c < n; ++c) {
      int p = c;
      for (int i = c + 1; i < n; ++i) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
      double[] t = m[p]; m[p] = m[c]; m[c] = t; double q = r[p]; r[p] = r[c]; r[c] = q;
      for (int i = c + 1; i < n; ++i) {
        double f = m[i][c] / m[c][c];
        if (f == 0) continue;
        for (int k = c; k < n; ++k) m[i][k] -= f * m[c][k];
        r[i] -= f * r[c];
      }
    }
    Value[] out = new Value[n];
    double[] x = new double[n];
    for (int i = n - 1; i >= 0; --i) {
      double a = r[i];
      for (int k = i + 1; k < n; ++k) a -= m[i][k] * x[k];
      x[i] = a / m[i][i];
      out[i] = s(x[i]);
    }
    return new TupleValue(out);
  }
  static double[][] mat(Value A) {
    Value[] rows = ((TupleValue) A.toTuple()).elems;
    double[][] m = new double[rows.length][];
    for (int i = 0; i < m.length; ++i) m[i] = seq(rows[i]);
    return m;
  }
  static Value mat(double[][] m) {
    Value[] rows = new Value[m.length];
    for (int i = 0; i < m.length; ++i) {
      Value[] r = new Value[m[i].length];
      for (int k = 0; k < r.length; ++k) r[k] = s(m[i][k]);
      rows[i] = new TupleValue(r);
    }
    return new TupleValue(rows);
  }
  /** Matrices are sequences of rows. A product of an n x k and a k x w matrix; w is that of B's first row. */
  @TLAPlusOperator(identifier = "FMatMul", module = "Flt", warn = false)
  public static Value matmul(Value A, Value B) {
    double[][] a = mat(A), c = mat(B);
    int w = c.length == 0 ? 0 : c[0].length;
    double[][] r = new double[a.length][w];
    for (int i = 0; i < a.length; ++i) {
      if (a[i].length != c.length) throw new RuntimeException("FMatMul: sizes differ");
      for (int k = 0; k < c.length; ++k) for (int j = 0; j < w; ++j) r[i][j] += a[i][k] * c[k][j];
    }
    return mat(r);
  }
  @TLAPlusOperator(identifier = "FMatAdd", module = "Flt", warn = false)
  public static Value matadd(Value A, Value B) {
    double[][] a = mat(A), c = mat(B);
    if (a.length != c.length) throw new RuntimeException("FMatAdd: sizes differ");
    for (int i = 0; i < a.length; ++i) {
      if (a[i].length != c[i].length) throw new RuntimeException("FMatAdd: sizes differ");
      for (int k = 0; k < a[i].length; ++k) a[i][k] += c[i][k];
    }
    return mat(a);
  }
  @TLAPlusOperator(identifier = "FMatScale", module = "Flt", warn = false)
  public static Value matscale(Value f, Value A) {
    double[][] a = mat(A);
    double g = d(f);
    for (double[] r : a) for (int k = 0; k < r.length; ++k) r[k] *= g;
    return mat(a);
  }
  /** The matrix X with A X = Y. */
  @TLAPlusOperator(identifier = "FSolveM", module = "Flt", warn = false)
  public static Value solvem(Value A, Value Y) {
    double[][] m = mat(A), r = mat(Y);
    int n = m.length, w = n == 0 ? 0 : r[0].length;
    for (int c = 0; c < n; ++c) {
      int p = c;
      for (int i = c + 1; i < n; ++i) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
      double[] t = m[p]; m[p] = m[c]; m[c] = t; t = r[p]; r[p] = r[c]; r[c] = t;
      for (int i = c + 1; i < n; ++i) {
        double f = m[i][c] / m[c][c];
        if (f == 0) continue;
        for (int k = c; k < n; ++k) m[i][k] -= f * m[c][k];
        for (int k = 0; k < w; ++k) r[i][k] -= f * r[c][k];
      }
    }
    double[][] x = new double[n][w];
    for (int i = n - 1; i >= 0; --i)
      for (int j = 0; j < w; ++j) {
        double a = r[i][j];
        for (int k = i + 1; k < n; ++k) a -= m[i][k] * x[k][j];
        x[i][j] = a / m[i][i];
      }
    return mat(x);
  }
  @TLAPlusOperator(identifier = "FCloseMat", module = "Flt", warn = false)
  public static Value closeMat(Value A, Value B, Value at, Value rt) {
    double[][] a = mat(A), c = mat(B);
    if (a.length != c.length) return BoolValue.ValFalse;
    for (int i = 0; i < a.length; ++i) {
      if (a[i].length != c[i].length) return BoolValue.ValFalse;
      for (int k = 0; k < a[i].length; ++k) if (!close(a[i][k], c[i][k], d(at), d(rt))) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
}
