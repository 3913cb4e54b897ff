// TLC module override for spec/RealNum.tla: exact-ish real arithmetic on decimal strings.
// Every operator is a pure function on its arguments; 40 significant digits.
import java.math.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class RealNum {
  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  static final MathContext HI = new MathContext(60, RoundingMode.HALF_EVEN);
  static final BigDecimal ZERO = BigDecimal.ZERO, ONE = BigDecimal.ONE, TWO = BigDecimal.valueOf(2);

  static String s(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).val.toString();
    if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
    if (v instanceof BoolValue) return ((BoolValue) v).val ? "1" : "0";
    return "nan";
  }
  static boolean fin(String t) {
    if (t.isEmpty()) return false;
    char c = t.charAt(t.length() - 1);
    return c >= '0' && c <= '9' || c == '.';
  }
  static BigDecimal d(Value v) {
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
    String t = s(v);
    if (!fin(t)) throw new ArithmeticException("not a finite real: " + t);
    return new BigDecimal(t);
  }
  static Value out(BigDecimal b) {
    b = b.round(MC);
    if (b.signum() == 0) return new StringValue("0");
    b = b.stripTrailingZeros();
    String p = b.scale() <= 0 && b.precision() - b.scale() < 25 ? b.toPlainString() : b.toString();
    return new StringValue(p);
  }
  static final StringValue NAN = new StringValue("nan");
  static boolean ok(Value... vs) { for (Value v : vs) if (!(v instanceof IntValue) && !fin(s(v))) return false; return true; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RFin(Value a) { return bool(ok(a)); }
  public static Value RAdd(Value a, Value b) { return ok(a,b) ? out(d(a).add(d(b), MC)) : NAN; }
  public static Value RSub(Value a, Value b) { return ok(a,b) ? out(d(a).subtract(d(b), MC)) : NAN; }
  public static Value RMul(Value a, Value b) { return ok(a,b) ? out(d(a).multiply(d(b), MC)) : NAN; }
  public static Value RDiv(Value a, Value b) {
    if (!ok(a,b) || d(b).signum() == 0) return NAN;
    return out(d(a).divide(d(b), MC));
  }
  public static Value RNeg(Value a) { return ok(a) ? out(d(a).negate()) : NAN; }
  public static Value RAbs(Value a) { return ok(a) ? out(d(a).abs()) : NAN; }
  public static Value RSign(Value a) { return IntValue.gen(ok(a) ? d(a).signum() : 0); }
  public static Value RLt(Value a, Value b) { return bool(ok(a,b) && d(a).compareTo(d(b)) < 0); }
  public static Value RLe(Value a, Value b) { return bool(ok(a,b) && d(a).compareTo(d(b)) <= 0); }
  public static Value REq(Value a, Value b) { return bool(ok(a,b) ? d(a).compareTo(d(b)) == 0 : s(a).equals(s(b))); }
  public static Value RPow(Value a, Value n) { return ok(a) ? out(pow(d(a), ((IntValue) n).val)) : NAN; }
  static BigDecimal pow(BigDecimal x, int n) {
    if (n >= 0) return x.pow(n, HI);
    return ONE.divide(x.pow(-n, HI), HI);
  }
  static Value[] elems(Value v) {
    v = (Value) v.toTuple();
    return ((TupleValue) v).elems;
  }
  public static Value RSum(Value q) {
    BigDecimal r = ZERO;
    for (Value e : elems(q)) { if (!ok(e)) return NAN; r = r.add(d(e), HI); }
    return out(r);
  }
  public static Value RProd(Value q) {
    BigDecimal r = ONE;
    for (Value e : elems(q)) { if (!ok(e)) return NAN; r = r.multiply(d(e), HI); }
    return out(r);
  }
  public static Value RDot(Value a, Value b) {
    Value[] x = elems(a), y = elems(b);
    BigDecimal r = ZERO;
    for (int i = 0; i < x.length; i++) { if (!ok(x[i], y[i])) return NAN; r = r.add(d(x[i]).multiply(d(y[i]), HI), HI); }
    return out(r);
  }
  // ---- transcendental
  static BigDecimal exp(BigDecimal x) {
    if (x.signum() == 0) return ONE;
    if (x.compareTo(BigDecimal.valueOf(-1000000)) < 0) return ZERO;
    int k = 0;
    BigDecimal y = x;
    double ax = Math.abs(x.doubleValue());
    while (ax > 0.01) { ax /= 2; k++; }
    y = x.divide(TWO.pow(k), HI);
    BigDecimal term = ONE, sum = ONE;
    for (int i = 1; i < 60; i++) {
      term = term.multiply(y, HI).divide(BigDecimal.valueOf(i), HI);
      if (term.signum() == 0) break;
      sum = sum.add(term, HI);
      if (term.abs().compareTo(new BigDecimal("1e-58")) < 0) break;
    }
    for (int i = 0; i < k; i++) sum = sum.multiply(sum, HI);
    return sum;
  }
  static final BigDecimal LN10 = lnRaw(BigDecimal.TEN);
  static BigDecimal lnRaw(BigDecimal m) {
    BigDecimal y = BigDecimal.valueOf(Math.log(m.doubleValue()));
    for (int i = 0; i < 2; i++) {
      BigDecimal e = exp(y);
      y = y.add(TWO.multiply(m.subtract(e, HI)).divide(m.add(e, HI), HI), HI);
    }
    return y;
  }
  static BigDecimal ln(BigDecimal x) {
    int e = x.precision() - x.scale() - 1;
    BigDecimal m = x.scaleByPowerOfTen(-e);
    BigDecimal y = lnRaw(m);
    return e == 0 ? y : y.add(LN10.multiply(BigDecimal.valueOf(e)), HI);
  }
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494");
  public static Value RExp(Value a) {
    String t = s(a);
    if (t.equals("-inf")) return out(ZERO);
    return ok(a) ? out(exp(d(a))) : NAN;
  }
  public static Value RLn(Value a) {
    if (!ok(a)) return NAN;
    BigDecimal x = d(a);
    if (x.signum() == 0) return new StringValue("-inf");
    return x.signum() < 0 ? NAN : out(ln(x));
  }
  public static Value RSqrt(Value a) { return ok(a) && d(a).signum() >= 0 ? out(d(a).sqrt(HI)) : NAN; }
  static BigDecimal lgamma(BigDecimal x) {
    // shift to x >= 40, Stirling with Bernoulli numbers
    BigDecimal shift = ZERO, p = ONE;
    while (x.compareTo(BigDecimal.valueOf(40)) < 0) { p = p.multiply(x, HI); x = x.add(ONE); }
    long[][] B = {{1,6},{-1,30},{1,42},{-1,30},{5,66},{-691,2730},{7,6},{-3617,510},{43867,798},{-174611,330},{854513,138},{-236364091,2730}};
    BigDecimal r = x.subtract(new BigDecimal("0.5")).multiply(ln(x), HI).subtract(x)
        .add(ln(TWO.multiply(PI)).divide(TWO), HI);
    BigDecimal xp = x;
    for (int k = 1; k <= B.length; k++) {
      BigDecimal den = BigDecimal.valueOf(B[k-1][1]).multiply(BigDecimal.valueOf(2L*k*(2L*k-1))).multiply(xp, HI);
      r = r.add(BigDecimal.valueOf(B[k-1][0]).divide(den, HI), HI);
      xp = xp.multiply(x, HI).multiply(x, HI);
    }
    return r.subtract(ln(p), HI);
  }
  public static Value RLGamma(Value a) { return ok(a) && d(a).signum() > 0 ? out(lgamma(d(a))) : NAN; }
  static BigDecimal gammaP(BigDecimal a, BigDecimal x) { // regularised lower incomplete gamma
    if (x.signum() <= 0) return ZERO;
    MathContext W = new MathContext(120);
    if (x.compareTo(a.add(ONE)) > 0
        && a.multiply(ln(x), HI).subtract(x, HI).subtract(lgamma(a), HI).compareTo(BigDecimal.valueOf(-110)) < 0) return ONE;
    BigDecimal term = ONE.divide(a, W), sum = term, ap = a;
    for (int n = 1; n < 5000; n++) {
      ap = ap.add(ONE);
      term = term.multiply(x, W).divide(ap, W);
      sum = sum.add(term, W);
      if (term.compareTo(sum.scaleByPowerOfTen(-60)) < 0) break;
    }
    BigDecimal lg = a.multiply(ln(x), HI).subtract(x, HI).subtract(lgamma(a), HI);
    BigDecimal r = sum.multiply(exp(lg), HI);
    return r.compareTo(ONE) > 0 ? ONE : r;
  }
  public static Value RGammaP(Value a, Value x) { return ok(a, x) ? out(gammaP(d(a), d(x))) : NAN; }
  public static Value RNormCdf(Value z) {
    if (s(z).equals("inf")) return out(ONE);
    if (s(z).equals("-inf")) return out(ZERO);
    if (!ok(z)) return NAN;
    BigDecimal x = d(z);
    BigDecimal h = x.multiply(x, HI).divide(TWO, HI);
    BigDecimal p = gammaP(new BigDecimal("0.5"), h); // erf(|x|/sqrt2)
    BigDecimal r = x.signum() >= 0 ? ONE.add(p).divide(TWO) : ONE.subtract(p).divide(TWO);
    return out(r);
  }
  public static Value RDigamma(Value a) {
    if (!ok(a) || d(a).signum() <= 0) return NAN;
    BigDecimal x = d(a), acc = ZERO;
    while (x.compareTo(BigDecimal.valueOf(40)) < 0) { acc = acc.add(ONE.divide(x, HI), HI); x = x.add(ONE); }
    long[][] B = {{1,6},{-1,30},{1,42},{-1,30},{5,66},{-691,2730},{7,6},{-3617,510},{43867,798},{-174611,330}};
    BigDecimal r = ln(x).subtract(ONE.divide(TWO.multiply(x), HI), HI);
    BigDecimal xp = x.multiply(x, HI);
    for (int k = 1; k <= B.length; k++) {
      BigDecimal den = BigDecimal.valueOf(B[k-1][1]).multiply(BigDecimal.valueOf(2L*k)).multiply(xp, HI);
      r = r.subtract(BigDecimal.valueOf(B[k-1][0]).divide(den, HI), HI);
      xp = xp.multiply(x, HI).multiply(x, HI);
    }
    return out(r.subtract(acc, HI));
  }
  // ---- conversions
  public static Value RInt(Value a) { return ok(a) ? out(d(a)) : NAN; }
  public static Value RIsInt(Value a) { return bool(ok(a) && d(a).remainder(ONE).signum() == 0 && d(a).abs().compareTo(BigDecimal.valueOf(1000000000)) < 0); }
  public static Value RFloor(Value a) { return IntValue.gen(d(a).setScale(0, RoundingMode.FLOOR).intValue()); }
  public static Value RCeil(Value a) { return IntValue.gen(d(a).setScale(0, RoundingMode.CEILING).intValue()); }
  // ---- comparison of observed floats with the model
  public static Value RClose(Value a, Value b, Value tol) {
    if (!ok(a, b)) return bool(s(a).equals(s(b)) );
    BigDecimal x = d(a), y = d(b), t = d(tol);
    BigDecimal m = ONE.add(x.abs()); if (ONE.add(y.abs()).compareTo(m) > 0) m = ONE.add(y.abs());
    return bool(x.subtract(y).abs().compareTo(t.multiply(m, HI)) <= 0);
  }
  // relative closeness of two nonnegative numbers
  public static Value RRelClose(Value a, Value b, Value tol) {
    if (!ok(a, b)) return bool(s(a).equals(s(b)));
    BigDecimal x = d(a), y = d(b);
    BigDecimal m = x.abs().max(y.abs());
    return bool(x.subtract(y).abs().compareTo(d(tol).multiply(m, HI)) <= 0);
  }
  // observed log value obs agrees with modelled non-negative value p
  public static Value RLogIs(Value obs, Value p, Value tol) {
    String o = s(obs);
    if (!ok(p)) return bool(false);
    BigDecimal pv = d(p);
    if (pv.signum() < 0) return bool(false);
    // exp() is cut off at -1e6, so an exact zero also stands for anything below that
    if (pv.signum() == 0) return bool(o.equals("-inf") || (fin(o) && new BigDecimal(o).compareTo(BigDecimal.valueOf(-900000)) < 0));
    if (!fin(o)) return bool(false);
    BigDecimal l = ln(pv);
    BigDecimal m = ONE.add(l.abs());
    return bool(d(obs).subtract(l).abs().compareTo(d(tol).multiply(m, HI)) <= 0);
  }
}
