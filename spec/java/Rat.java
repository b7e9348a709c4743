import java.math.BigInteger;
import tlc2.value.impl.*;

/** Unbounded execution of the operators of module Rat (same results as RatRef). */
public final class Rat {
    private static final BigInteger ONE = BigInteger.ONE, TEN = BigInteger.TEN;
    private static final StringValue NAN = new StringValue("nan");
    private final BigInteger n, d;
    private Rat(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    private static Rat p(Value v) {
        if (!(v instanceof StringValue))
            throw new IllegalArgumentException("not a rational: " + v);
        String s = ((StringValue) v).val.toString();
        char c = s.charAt(s.length() - 1);
        if (c < '0' || c > '9') return null;       // nan, inf, -inf
        int k = s.indexOf('/');
        if (k < 0) return new Rat(new BigInteger(s), ONE);
        return new Rat(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    }
    private static StringValue mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        return new StringValue(d.equals(ONE) ? n.toString() : n + "/" + d);
    }
    public static Value RAdd(Value a, Value b) {
        Rat x = p(a), y = p(b);
        if (x == null || y == null) return NAN;
        return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    public static Value RSub(Value a, Value b) {
        Rat x = p(a), y = p(b);
        if (x == null || y == null) return NAN;
        return mk(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    public static Value RMul(Value a, Value b) {
        Rat x = p(a), y = p(b);
        if (x == null || y == null) return NAN;
        return mk(x.n.multiply(y.n), x.d.multiply(y.d));
    }
    public static Value RDiv(Value a, Value b) {
        Rat x = p(a), y = p(b);
        if (x == null || y == null) return NAN;
        return mk(x.n.multiply(y.d), x.d.multiply(y.n));
    }
    public static Value RNeg(Value a) {
        Rat x = p(a);
        return x == null ? NAN : mk(x.n.negate(), x.d);
    }
    public static Value RLt(Value a, Value b) {
        Rat x = p(a), y = p(b);
        if (x == null || y == null) return BoolValue.ValFalse;
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RPow(Value a, Value k) {
        Rat x = p(a); int e = ((IntValue) k).val;
        if (x == null) return NAN;
        if (e >= 0) return mk(x.n.pow(e), x.d.pow(e));
        return mk(x.d.pow(-e), x.n.pow(-e));
    }
    private static BigInteger floor(BigInteger n, BigInteger d) {
        BigInteger[] qr = n.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    }
    public static Value RFloor(Value a) {
        Rat x = p(a);
        return x == null ? NAN : mk(floor(x.n, x.d), ONE);
    }
    public static Value RRound(Value a, Value k) {
        Rat x = p(a); int e = ((IntValue) k).val;
        if (x == null) return NAN;
        BigInteger t = TEN.pow(e), two = BigInteger.valueOf(2);
        return mk(floor(x.n.multiply(t).multiply(two).add(x.d), x.d.multiply(two)), t);
    }
    public static Value RNum(Value a) {
        return p(a) == null ? BoolValue.ValFalse : BoolValue.ValTrue;
    }
    public static Value RInt(Value n) { return new StringValue(Integer.toString(((IntValue) n).val)); }
    /** a decimal literal such as -1.5e-7 as a rational */
    public static Value ROfDec(Value a) {
        String s = ((StringValue) a).val.toString();
        char c = s.charAt(s.length() - 1);
        if (c < '0' || c > '9' || s.indexOf('/') >= 0) return a;
        java.math.BigDecimal b = new java.math.BigDecimal(s);
        BigInteger u = b.unscaledValue(); int sc = b.scale();
        return sc >= 0 ? mk(u, TEN.pow(sc)) : mk(u.multiply(TEN.pow(-sc)), ONE);
    }
    public static Value RToInt(Value a) { Rat x = p(a); return IntValue.gen(x.n.intValueExact()); }
}
