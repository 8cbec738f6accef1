import tlc2.value.impl.*;

/** Evaluates the operators of module F64: IEEE 754 doubles as <<high 32 bits, low 32 bits>>. */
public class F64 {
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  static Value v(double x) {
    long b = Double.doubleToLongBits(x);   // one NaN
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static double[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] r = new double[t.elems.length];
    for (int k = 0; k < r.length; k++) r[k] = d(t.elems[k]);
    return r;
  }
  static Value seq(double[] x) {
    Value[] r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = v(x[k]);
    return new TupleValue(r);
  }
  static double parse(String x) {
    if (x.equals("inf")) return Double.POSITIVE_INFINITY;
    if (x.equals("-inf")) return Double.NEGATIVE_INFINITY;
    if (x.equals("nan")) return Double.NaN;
    return Double.parseDouble(x);
  }
  public static Value FParse(Value x) { return v(parse(s(x))); }
  public static Value FParseSeq(Value x) {
    TupleValue t = (TupleValue) x.toTuple();
    Value[] r = new Value[t.elems.length];
    for (int k = 0; k < r.length; k++) r[k] = v(parse(s(t.elems[k])));
    return new TupleValue(r);
  }
  public static Value FShow(Value a) { return new StringValue(Double.toString(d(a))); }
  public static Value FInt(Value a) { return v(i(a)); }
  public static Value FQ(Value a, Value c) { return v((double) i(a) / i(c)); }
  public static Value FAdd(Value a, Value c) { return v(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return v(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return v(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return v(d(a) / d(c)); }
  public static Value FNeg(Value a) { return v(-d(a)); }
  public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value FSgn(Value a) { return v(Math.signum(d(a))); }
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value FLog(Value a) { return v(Math.log(d(a))); }
  public static Value FExp(Value a) { return v(Math.exp(d(a))); }
  public static Value FPow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
  public static Value FIPow(Value a, Value n) { return v(Math.pow(d(a), i(n))); }
  public static Value FRint(Value a) { return v(Math.rint(d(a))); }
  public static Value FFloorInt(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value FMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
  public static Value FMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFin(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  /** Compensated sum. */
  static double sum(double[] x) {
    double s = 0, c = 0;
    for (double y : x) {
      double t = s + y;
      if (Math.abs(s) >= Math.abs(y)) c += (s - t) + y; else c += (y - t) + s;
      s = t;
    }
    return (Double.isNaN(c) || Double.isInfinite(s)) ? s : s + c;
  }
  public static Value FSum(Value x) { return v(sum(seq(x))); }
  public static Value FDot(Value x, Value y) {
    double[] a = seq(x), c = seq(y), r = new double[Math.min(a.length, c.length)];
    for (int k = 0; k < r.length; k++) r[k] = a[k] * c[k];
    return v(sum(r));
  }
  /** Equal up to atol + rtol * max(|a|,|b|); NaN equals NaN, infinities equal themselves. */
  static boolean close(double a, double c, double rtol, double atol) {
    if (Double.isNaN(a) || Double.isNaN(c)) return Double.isNaN(a) && Double.isNaN(c);
    if (a == c) return true;
    if (Double.isInfinite(a) || Double.isInfinite(c)) return false;
    return Math.abs(a - c) <= atol + rtol * Math.max(Math.abs(a), Math.abs(c));
  }
  public static Value FClose(Value a, Value c, Value rtol, Value atol) {
    return b(close(d(a), d(c), d(rtol), d(atol)));
  }
  interface Op1 { double f(double x); }
  interface Op2 { double f(double x, double y); }
  static Value map(Value a, Op1 f) { double[] x = seq(a); for (int k = 0; k < x.length; k++) x[k] = f.f(x[k]); return seq(x); }
  static Value zip(Value a, Value c, Op2 f) {
    double[] x = seq(a), y = seq(c);
    if (x.length != y.length) throw new RuntimeException("F64: lengths " + x.length + " and " + y.length);
    for (int k = 0; k < x.length; k++) x[k] = f.f(x[k], y[k]);
    return seq(x);
  }
  public static Value FVAdd(Value a, Value c) { return zip(a, c, (x, y) -> x + y); }
  public static Value FVSub(Value a, Value c) { return zip(a, c, (x, y) -> x - y); }
  public static Value FVMul(Value a, Value c) { return zip(a, c, (x, y) -> x * y); }
  public static Value FVDiv(Value a, Value c) { return zip(a, c, (x, y) -> x / y); }
  public static Value FVScale(Value a, Value c) { double y = d(c); return map(a, x -> x * y); }
  public static Value FVShift(Value a, Value c) { double y = d(c); return map(a, x -> x + y); }
  public static Value FVLog(Value a) { return map(a, Math::log); }
  public static Value FVExp(Value a) { return map(a, Math::exp); }
  public static Value FVSqrt(Value a) { return map(a, Math::sqrt); }
  public static Value FVAbs(Value a) { return map(a, Math::abs); }
  public static Value FVMax(Value a) { double r = Double.NEGATIVE_INFINITY; for (double x : seq(a)) r = Math.max(r, x); return v(r); }
  public static Value FVMin(Value a) { double r = Double.POSITIVE_INFINITY; for (double x : seq(a)) r = Math.min(r, x); return v(r); }
  public static Value FSort(Value a) { double[] x = seq(a); java.util.Arrays.sort(x); return seq(x); }
  public static Value FVClose(Value a, Value c, Value rtol, Value atol) {
    double[] x = seq(a), y = seq(c);
    if (x.length != y.length) return b(false);
    for (int k = 0; k < x.length; k++) if (!close(x[k], y[k], d(rtol), d(atol))) return b(false);
    return b(true);
  }
  /** Distribution function of the standard normal (erfc by continued fraction / series). */
  public static Value FNCdf(Value a) {
    double x = d(a), z = Math.abs(x), p;
    if (z < 3) {            // series of Marsaglia
      double s = z, t = z;
      for (int k = 3; k < 400; k += 2) { t *= z * z / k; s += t; if (t < 1e-18) break; }
      p = 0.5 - s * Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI);
    } else {                // continued fraction of the tail
      double f = 0;
      for (int k = 200; k >= 1; k--) f = k / (z + f);
      p = Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI) / (z + f);
    }
    return v(x > 0 ? 1 - p : p);
  }
  /** Distribution function of Student's t. */
  public static Value FTCdf(Value x, Value df) {
    double t = d(x), n = d(df);
    if (Double.isNaN(t)) return v(Double.NaN);
    if (t == 0) return v(0.5);
    if (Double.isInfinite(t)) return v(t > 0 ? 1 : 0);
    double z = n / (n + t * t), p;
    if (t * t > 1e30) {   // tail: I_z(n/2, 1/2) ~ z^(n/2) / (n/2 * B)
      p = 0.5 * Math.exp((n / 2) * Math.log(z) - Math.log(n / 2) - lbeta(n / 2, 0.5));
    } else p = 0.5 * ibeta(n / 2, 0.5, z, t * t / (n + t * t));
    return v(t > 0 ? 1 - p : p);
  }
  static double lgamma(double x) {
    double[] c = {76.18009172947146, -86.50532032941677, 24.01409824083091, -1.231739572450155,
                  0.1208650973866179e-2, -0.5395239384953e-5};
    // Lanczos with high precision (g = 7, n = 9)
    double[] p = {0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313,
      -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
    if (x < 0.5) return Math.log(Math.PI / Math.sin(Math.PI * x)) - lgamma(1 - x);
    x -= 1;
    double a = p[0], t = x + 7.5;
    for (int k = 1; k < 9; k++) a += p[k] / (x + k);
    return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a);
  }
  static double lbeta(double a, double c) { return lgamma(a) + lgamma(c) - lgamma(a + c); }
  /** Regularised incomplete beta function; y = 1 - x given separately for accuracy. */
  static double ibeta(double a, double c, double x, double y) {
    if (x <= 0) return 0;
    if (y <= 0) return 1;
    double bt = Math.exp(a * Math.log(x) + c * Math.log(y) - lbeta(a, c));
    if (x < (a + 1) / (a + c + 2)) return bt * bcf(a, c, x) / a;
    return 1 - bt * bcf(c, a, y) / c;
  }
  static double bcf(double a, double b, double x) {
    double tiny = 1e-300, qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
    if (Math.abs(d) < tiny) d = tiny;
    d = 1 / d;
    double h = d;
    for (int m = 1; m <= 10000; m++) {
      int m2 = 2 * m;
      double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
      d = 1 + aa * d; if (Math.abs(d) < tiny) d = tiny;
      c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny;
      d = 1 / d; h *= d * c;
      aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
      d = 1 + aa * d; if (Math.abs(d) < tiny) d = tiny;
      c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny;
      d = 1 / d;
      double del = d * c;
      h *= del;
      if (Math.abs(del - 1) < 1e-16) break;
    }
    return h;
  }
}
