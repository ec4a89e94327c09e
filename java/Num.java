// Java interpretation of the operators declared in spec/Num.tla: real numbers are TLA+
// strings (decimal notation), evaluated with 40 significant digits.  TLC loads this class
// as the module override of Num.
import java.math.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Num {
  static final MathContext MC = new MathContext(40);
  static final BigDecimal HALF = new BigDecimal("0.5");
  static final BigDecimal TWO = new BigDecimal(2);
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510");
  static final BigDecimal LN2 = new BigDecimal("0.693147180559945309417232121458176568075500134360255254");
  static final StringValue NAN = new StringValue("nan"), INF = new StringValue("inf"), NINF = new StringValue("-inf");

  static String s(Value v) { return ((StringValue) v).val.toString(); }
  // null: not a finite number
  static BigDecimal n(Value v) {
    if (v instanceof IntValue) return new BigDecimal(((IntValue) v).val);
    String x = s(v);
    if (x.equals("nan") || x.equals("inf") || x.equals("-inf")) return null;
    return new BigDecimal(x);
  }
  static Value v(BigDecimal b) {
    b = b.round(MC);
    if (b.signum() == 0) return new StringValue("0");
    return new StringValue(b.toString());
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value NAdd(Value a, Value b) {
    BigDecimal x = n(a), y = n(b);
    if (x != null && y != null) return v(x.add(y, MC));
    if (x == null && y == null) return s(a).equals(s(b)) ? a : NAN;
    return x == null ? a : b;
  }
  public static Value NNeg(Value a) {
    BigDecimal x = n(a);
    if (x != null) return new StringValue(x.signum() == 0 ? "0" : x.negate().toString());
    return s(a).equals("inf") ? NINF : s(a).equals("-inf") ? INF : NAN;
  }
  public static Value NSub(Value a, Value b) { return NAdd(a, NNeg(b)); }
  static int sgn(Value a) {
    BigDecimal x = n(a);
    return x != null ? x.signum() : s(a).equals("inf") ? 1 : s(a).equals("-inf") ? -1 : 0;
  }
  public static Value NMul(Value a, Value b) {
    BigDecimal x = n(a), y = n(b);
    if (x != null && y != null) return v(x.multiply(y, MC));
    if ((x == null && s(a).equals("nan")) || (y == null && s(b).equals("nan"))) return NAN;
    int g = sgn(a) * sgn(b);
    return g > 0 ? INF : g < 0 ? NINF : NAN;
  }
  public static Value NDiv(Value a, Value b) {
    BigDecimal x = n(a), y = n(b);
    if (x != null && y != null) {
      if (y.signum() == 0) return x.signum() > 0 ? INF : x.signum() < 0 ? NINF : NAN;
      return v(x.divide(y, MC));
    }
    if (x != null && y == null && !s(b).equals("nan")) return v(BigDecimal.ZERO);
    if (x == null && y != null && !s(a).equals("nan")) return (sgn(a) * (y.signum() < 0 ? -1 : 1)) > 0 ? INF : NINF;
    return NAN;
  }
  public static Value NAbs(Value a) { BigDecimal x = n(a); return x != null ? v(x.abs()) : s(a).equals("nan") ? NAN : INF; }
  public static Value NSum(Value q) {
    Value[] e = seq(q);
    Value r = v(BigDecimal.ZERO);
    for (Value x : e) r = NAdd(r, x);
    return r;
  }
  public static Value NDotP(Value p, Value q) {
    Value[] a = seq(p), b = seq(q);
    Value r = v(BigDecimal.ZERO);
    for (int i = 0; i < a.length; i++) r = NAdd(r, NMul(a[i], b[i]));
    return r;
  }
  static Value[] seq(Value q) { return ((TupleValue) q.toTuple()).elems; }

  public static Value NSort(Value q) {
    Value[] e = seq(q).clone();
    java.util.Arrays.sort(e, (a, b) -> n(a).compareTo(n(b)));
    return new TupleValue(e);
  }
  public static Value NRound(Value a) {
    BigDecimal x = n(a);
    return x == null ? a : v(x.setScale(0, RoundingMode.HALF_EVEN));
  }
  public static Value NSeq(Value q) {
    Value t = q.toTuple();
    if (t == null) return q;
    for (Value x : ((TupleValue) t).elems) x.deepNormalize();
    return t;
  }

  static BigDecimal exp(BigDecimal x) {
    // x = k ln2 + r
    if (x.compareTo(new BigDecimal(-20000)) < 0) return BigDecimal.ZERO;
    MathContext m = new MathContext(55);
    BigDecimal k = x.divide(LN2, 0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.subtract(k.multiply(LN2), m).divide(new BigDecimal(256), m);
    BigDecimal t = BigDecimal.ONE, sum = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(r, m).divide(new BigDecimal(i), m);
      sum = sum.add(t, m);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-60")) < 0) break;
    }
    for (int i = 0; i < 8; i++) sum = sum.multiply(sum, m);
    int kk = k.intValueExact();
    BigDecimal p = TWO.pow(Math.abs(kk), m);
    return kk >= 0 ? sum.multiply(p, MC) : sum.divide(p, MC);
  }
  static BigDecimal log(BigDecimal x) {
    MathContext m = new MathContext(55);
    // initial guess from the double logarithm, then Newton
    int e = x.precision() - x.scale();
    double d = x.scaleByPowerOfTen(-e).doubleValue();
    BigDecimal y = new BigDecimal(Math.log(d) + e * Math.log(10.0));
    for (int i = 0; i < 3; i++) {
      BigDecimal ey = exp55(y);
      BigDecimal c = x.subtract(ey, m).multiply(TWO).divide(x.add(ey, m), m);
      y = y.add(c, m);
    }
    return y.round(MC);
  }
  static BigDecimal exp55(BigDecimal x) {
    MathContext m = new MathContext(60);
    BigDecimal k = x.divide(LN2, 0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.subtract(k.multiply(LN2), m).divide(new BigDecimal(256), m);
    BigDecimal t = BigDecimal.ONE, sum = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(r, m).divide(new BigDecimal(i), m);
      sum = sum.add(t, m);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-65")) < 0) break;
    }
    for (int i = 0; i < 8; i++) sum = sum.multiply(sum, m);
    int kk = k.intValueExact();
    BigDecimal p = TWO.pow(Math.abs(kk), m);
    return kk >= 0 ? sum.multiply(p, m) : sum.divide(p, m);
  }
  static final ConcurrentHashMap<String, Value> LOGC = new ConcurrentHashMap<>(), LGC = new ConcurrentHashMap<>(), EXPC = new ConcurrentHashMap<>();
  public static Value NExp(Value a) {
    BigDecimal x = n(a);
    if (x == null) return s(a).equals("-inf") ? v(BigDecimal.ZERO) : a;
    if (x.compareTo(new BigDecimal(20000)) > 0) return INF;
    return EXPC.computeIfAbsent(x.toString(), k -> v(exp(x)));
  }
  public static Value NLog(Value a) {
    BigDecimal x = n(a);
    if (x == null) return s(a).equals("inf") ? INF : NAN;
    if (x.signum() < 0) return NAN;
    if (x.signum() == 0) return NINF;
    return LOGC.computeIfAbsent(x.toString(), k -> v(log(x)));
  }
  public static Value NSqrt(Value a) {
    BigDecimal x = n(a);
    if (x == null) return s(a).equals("inf") ? INF : NAN;
    if (x.signum() < 0) return NAN;
    return v(x.sqrt(MC));
  }
  public static Value NSigmoid(Value a) {
    BigDecimal x = n(a);
    if (x == null) return s(a).equals("inf") ? v(BigDecimal.ONE) : s(a).equals("-inf") ? v(BigDecimal.ZERO) : NAN;
    BigDecimal e = exp(x.abs().negate());
    BigDecimal q = e.divide(BigDecimal.ONE.add(e, MC), MC);
    if (x.signum() < 0) return v(q);
    // with as many digits as its difference from 1 needs, since that matters too
    if (x.compareTo(new BigDecimal(2000)) < 0) return new StringValue(BigDecimal.ONE.subtract(q).toString());
    return v(BigDecimal.ONE.subtract(q));
  }
  // log(1 + exp(x))
  public static Value NSoftplus(Value a) {
    BigDecimal x = n(a);
    if (x == null) return a;
    if (x.signum() > 0) return v(x.add(log(BigDecimal.ONE.add(exp(x.negate()), MC)), MC));
    return v(log(BigDecimal.ONE.add(exp(x), MC)));
  }
  static final String[] BERN = { "1/6", "-1/30", "1/42", "-1/30", "5/66", "-691/2730", "7/6", "-3617/510", "43867/798", "-174611/330", "854513/138", "-236364091/2730", "8553103/6", "-23749461029/870", "8615841276005/14322" };
  static BigDecimal lgamma(BigDecimal x) {
    MathContext m = new MathContext(55);
    BigDecimal shift = BigDecimal.ONE;
    while (x.compareTo(new BigDecimal(40)) < 0) { shift = shift.multiply(x, m); x = x.add(BigDecimal.ONE); }
    BigDecimal r = x.subtract(HALF).multiply(log(x), m).subtract(x).add(HALF.multiply(log(PI.multiply(TWO)), m));
    BigDecimal p = x;
    BigDecimal x2 = x.multiply(x, m);
    for (int k = 1; k <= BERN.length; k++) {
      String[] f = BERN[k - 1].split("/");
      BigDecimal b = new BigDecimal(f[0]).divide(new BigDecimal(f[1]), m);
      r = r.add(b.divide(new BigDecimal(2L * k * (2 * k - 1)).multiply(p, m), m), m);
      p = p.multiply(x2, m);
    }
    return r.subtract(log(shift), MC);
  }
  public static Value NLgamma(Value a) {
    BigDecimal x = n(a);
    if (x == null || x.signum() <= 0) return NAN;
    return LGC.computeIfAbsent(x.toString(), k -> v(lgamma(x)));
  }
  public static Value NCos(Value a) {
    BigDecimal x = n(a);
    if (x == null) return NAN;
    // 1 - x^2/2 + ..., at x / 2^k; cos 2y = 2 cos^2 y - 1
    int k = 0;
    while (x.abs().compareTo(BigDecimal.ONE) > 0) { x = x.divide(new BigDecimal(2)); k++; }
    MathContext mc = new MathContext(MC.getPrecision() + 15);
    BigDecimal t = BigDecimal.ONE, r = BigDecimal.ONE, x2 = x.multiply(x, mc);
    for (int i = 1; i < 60; i++) {
      t = t.multiply(x2, mc).divide(new BigDecimal((2 * i - 1) * (2 * i)), mc).negate();
      r = r.add(t, mc);
    }
    for (; k > 0; k--) r = r.multiply(r, mc).multiply(new BigDecimal(2)).subtract(BigDecimal.ONE, mc);
    return v(r);
  }
  public static Value NOfInt(Value a) { return v(new BigDecimal(((IntValue) a).val)); }
  public static Value NIsInt(Value a) { BigDecimal x = n(a); return bool(x != null && x.stripTrailingZeros().scale() <= 0); }
  public static Value NToInt(Value a) { return IntValue.gen(n(a).intValueExact()); }
  public static Value NFinite(Value a) { return bool(n(a) != null); }
  public static Value NLt(Value a, Value b) {
    BigDecimal x = n(a), y = n(b);
    if (x != null && y != null) return bool(x.compareTo(y) < 0);
    if ((x == null && s(a).equals("nan")) || (y == null && s(b).equals("nan"))) return bool(false);
    return bool((x == null && s(a).equals("-inf") && !(y == null && s(b).equals("-inf"))) || (y == null && s(b).equals("inf") && !(x == null && s(a).equals("inf"))));
  }
  public static Value NLe(Value a, Value b) {
    BigDecimal x = n(a), y = n(b);
    if (x != null && y != null) return bool(x.compareTo(y) <= 0);
    if (x == null && y == null) return bool(s(a).equals(s(b)) && !s(a).equals("nan") || ((BoolValue) NLt(a, b)).val);
    return NLt(a, b);
  }
  public static Value NEq(Value a, Value b) {
    BigDecimal x = n(a), y = n(b);
    if (x != null && y != null) return bool(x.compareTo(y) == 0);
    return bool(x == null && y == null && s(a).equals(s(b)) && !s(a).equals("nan"));
  }
  // |a - b| <= atol + rtol * max(|a|, |b|)
  public static Value NClose(Value a, Value b, Value rtol, Value atol) {
    BigDecimal x = n(a), y = n(b);
    if (x == null || y == null) return bool(x == null && y == null && s(a).equals(s(b)) && !s(a).equals("nan"));
    return bool(x.subtract(y).abs().compareTo(n(atol).add(n(rtol).multiply(x.abs().max(y.abs())))) <= 0);
  }
  public static Value NMax(Value a, Value b) { return ((BoolValue) NLt(a, b)).val ? b : a; }
  public static Value NFloor(Value a) { BigDecimal x = n(a); return x == null ? a : v(x.setScale(0, RoundingMode.FLOOR)); }
}
