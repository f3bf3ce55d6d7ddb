import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates the operators of spec/Flt.tla on IEEE doubles. */
public class Flt {
  static double d(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value r(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static Value[] vec(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }

  public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
  public static Value RMulZ(Value x, Value y) { double p = d(x), q = d(y); return r(p == 0 || q == 0 ? 0 : p * q); }
  public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
  public static Value RNeg(Value x) { return r(-d(x)); }
  public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
  public static Value RMax(Value x, Value y) { return r(Math.max(d(x), d(y))); }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value RIsFin(Value x) { double a = d(x); return b(!Double.isNaN(a) && !Double.isInfinite(a)); }
  public static Value ROf(Value n) { return r(i(n)); }
  public static Value RDec(Value v) {
    String t = s(v);
    if (t.equals("inf")) return r(Double.POSITIVE_INFINITY);
    if (t.equals("-inf")) return r(Double.NEGATIVE_INFINITY);
    if (t.equals("nan")) return r(Double.NaN);
    return r(Double.parseDouble(t));
  }
  public static Value RShow(Value x) { return new StringValue(Double.toString(d(x))); }
  static boolean same(double a, double c) {
    return a == c || Double.doubleToLongBits(a) == Double.doubleToLongBits(c);
  }
  public static Value RSame(Value x, Value y) { return b(same(d(x), d(y))); }
  public static Value RBits(Value x, Value y) { return b(Double.doubleToLongBits(d(x)) == Double.doubleToLongBits(d(y))); }
  public static Value RClose(Value x, Value y, Value tol) {
    double a = d(x), c = d(y), t = d(tol);
    if (t == Double.POSITIVE_INFINITY) return b(true);
    if (Double.isNaN(a) || Double.isNaN(c)) return b(Double.isNaN(a) && Double.isNaN(c));
    if (a == c) return b(true);
    return b(Math.abs(a - c) <= t);
  }
  public static Value RFun(Value f, Value x) { return r(fun(s(f), d(x))); }
  static double fun(String f, double x) {
    switch (f) {
      case "sin": return Math.sin(x);
      case "cos": return Math.cos(x);
      case "tan": return Math.tan(x);
      case "asin": return Math.asin(x);
      case "acos": return Math.acos(x);
      case "atan": return Math.atan(x);
      case "exp": return Math.exp(x);
      case "log": return Math.log(x);
      case "sqrt": return Math.sqrt(x);
      case "sinh": return Math.sinh(x);
      case "cosh": return Math.cosh(x);
      case "tanh": return Math.tanh(x);
      case "erf": return Erf.erf(x);
      default: throw new RuntimeException("RFun " + f);
    }
  }

  public static Value RVLin(Value a, Value u, Value c, Value v) {
    Value[] U = vec(u), V = vec(v);
    int n = Math.max(U.length, V.length);
    double p = d(a), q = d(c);
    Value[] o = new Value[n];
    for (int k = 0; k < n; k++) {
      double x = U.length == 0 ? 0 : d(U[k]), y = V.length == 0 ? 0 : d(V[k]);
      o[k] = r((x == 0 ? 0 : p * x) + (y == 0 ? 0 : q * y));
    }
    return new TupleValue(o);
  }
  public static Value RVMax(Value u) {
    double m = 0;
    for (Value x : vec(u)) m = Math.max(m, Math.abs(d(x)));
    return r(m);
  }
  public static Value RVUnit(Value n, Value k) {
    Value[] o = new Value[i(n)];
    for (int j = 0; j < o.length; j++) o[j] = r(j + 1 == i(k) ? 1 : 0);
    return new TupleValue(o);
  }
  public static Value RVAt(Value u, Value k) {
    Value[] U = vec(u);
    return U.length == 0 ? r(0) : U[i(k) - 1];
  }
  public static Value RVZero(Value u) {
    for (Value x : vec(u)) if (d(x) != 0) return b(false);
    return b(true);
  }

  static int mix(int h, int k) {
    long z = (((long) h) << 32 | (k & 0xffffffffL)) + 0x9E3779B97F4A7C15L;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return (int) ((z ^ (z >>> 31)) & 0x7fffffffL);
  }
  public static Value Mix(Value h, Value k) { return IntValue.gen(mix(i(h), i(k))); }
  public static Value RRnd(Value h, Value lo, Value hi) {
    double l = Double.parseDouble(s(lo)), u = Double.parseDouble(s(hi));
    long n = (long) Math.floor((u - l) * 1024);
    long m = ((long) mix(i(h), 77) << 20) ^ mix(i(h), 78);
    long q = n == 0 ? 0 : m % (n + 1);
    return r((Math.ceil(l * 1024) + q) / 1024.0);
  }
}
