// TLC overrides for spec/Num.tla: 40 digit decimal real arithmetic.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class Num {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final MathContext MX = new MathContext(56, RoundingMode.HALF_EVEN);

    public static final class RV extends UserObj {
        final BigDecimal v; // null: NaN
        RV(BigDecimal v) { this.v = v; }
        @Override public int compareTo(Value o) {
            RV r = (RV) ((UserValue) o).userObj;
            if (v == null || r.v == null) return (v == null ? 0 : 1) - (r.v == null ? 0 : 1);
            return v.compareTo(r.v);
        }
        @Override public boolean member(Value x) { throw new RuntimeException("member of a real number"); }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
            return sb.append('"').append(str(v)).append('"');
        }
    }
    static String str(BigDecimal v) {
        return v == null ? "nan" : v.round(new MathContext(17)).stripTrailingZeros().toString();
    }
    static BigDecimal g(Value x) {
        if (x instanceof UserValue) return ((RV) ((UserValue) x).userObj).v;
        if (x instanceof IntValue) return BigDecimal.valueOf(((IntValue) x).val);
        if (x instanceof LazyValue) throw new RuntimeException("lazy value reached Num");
        throw new RuntimeException("Num: not a number: " + x);
    }
    static Value w(BigDecimal d) { return new UserValue(new RV(d)); }
    static final Value NAN = w(null);
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static BigDecimal parse(String s) {
        try {
            if (s.startsWith("0x") || s.startsWith("-0x")) return new BigDecimal(Double.parseDouble(s));
            return new BigDecimal(s);
        }
        catch (NumberFormatException e) { return null; }
    }
    public static Value R(final Value s) {
        if (s instanceof IntValue) return w(BigDecimal.valueOf(((IntValue) s).val));
        if (s instanceof UserValue) return s;
        if (!(s instanceof StringValue)) return NAN;
        return w(parse(((StringValue) s).val.toString()));
    }
    public static Value RI(final Value n) { return w(BigDecimal.valueOf(((IntValue) n).val)); }
    public static Value RFrac(final Value n, final Value d) {
        int dd = ((IntValue) d).val;
        return dd == 0 ? NAN : w(BigDecimal.valueOf(((IntValue) n).val).divide(BigDecimal.valueOf(dd), MC));
    }
    public static Value RAdd(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return a == null || c == null ? NAN : w(a.add(c, MC));
    }
    public static Value RSub(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return a == null || c == null ? NAN : w(a.subtract(c, MC));
    }
    public static Value RMul(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return a == null || c == null ? NAN : w(a.multiply(c, MC));
    }
    public static Value RDiv(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return a == null || c == null || c.signum() == 0 ? NAN : w(a.divide(c, MC));
    }
    public static Value RNeg(final Value x) { BigDecimal a = g(x); return a == null ? NAN : w(a.negate()); }
    public static Value RAbs(final Value x) { BigDecimal a = g(x); return a == null ? NAN : w(a.abs()); }
    public static Value RMax(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return a == null || c == null ? NAN : w(a.max(c));
    }
    public static Value RLt(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return b(a != null && c != null && a.compareTo(c) < 0);
    }
    public static Value RLe(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return b(a != null && c != null && a.compareTo(c) <= 0);
    }
    public static Value REq(final Value x, final Value y) {
        BigDecimal a = g(x), c = g(y);
        return b(a != null && c != null && a.compareTo(c) == 0);
    }
    public static Value RFin(final Value x) { return b(g(x) != null); }
    public static Value RSqrt(final Value x) {
        BigDecimal a = g(x);
        return a == null || a.signum() < 0 ? NAN : w(a.sqrt(MC));
    }
    // ---- elementary functions, 56 digits internally
    static BigDecimal PI, LN2;
    static BigDecimal atanInv(int n) { // atan(1/n)
        BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(n), MX), x2 = x.multiply(x, MX), t = x, s = x;
        for (int k = 1; k < 200; k++) {
            t = t.multiply(x2, MX).negate();
            s = s.add(t.divide(BigDecimal.valueOf(2 * k + 1), MX), MX);
        }
        return s;
    }
    static {
        PI = BigDecimal.valueOf(16).multiply(atanInv(5), MX).subtract(BigDecimal.valueOf(4).multiply(atanInv(239), MX), MX);
        BigDecimal t = BigDecimal.ONE.divide(BigDecimal.valueOf(3), MX), t2 = t.multiply(t, MX), s = BigDecimal.ZERO;
        for (int k = 0; k < 130; k++) { s = s.add(t.divide(BigDecimal.valueOf(2 * k + 1), MX), MX); t = t.multiply(t2, MX); }
        LN2 = s.multiply(BigDecimal.valueOf(2), MX);
    }
    static boolean tiny(BigDecimal t) { return t.signum() == 0 || t.precision() - t.scale() < -58; }
    static BigDecimal sinTaylor(BigDecimal x) {
        BigDecimal x2 = x.multiply(x, MX), t = x, s = x;
        for (int k = 1; k < 200 && !tiny(t); k++) {
            t = t.multiply(x2, MX).divide(BigDecimal.valueOf((2L * k) * (2L * k + 1)), MX).negate();
            s = s.add(t, MX);
        }
        return s;
    }
    static BigDecimal sin(BigDecimal x) {
        BigDecimal tp = PI.multiply(BigDecimal.valueOf(2), MX);
        BigDecimal k = x.divide(tp, MX).setScale(0, RoundingMode.HALF_EVEN);
        x = x.subtract(k.multiply(tp, MX), MX);
        return sinTaylor(x);
    }
    static BigDecimal atan(BigDecimal x) {
        if (x.signum() < 0) return atan(x.negate()).negate();
        if (x.compareTo(BigDecimal.ONE) > 0)
            return PI.divide(BigDecimal.valueOf(2), MX).subtract(atan(BigDecimal.ONE.divide(x, MX)), MX);
        int h = 0;
        while (x.compareTo(new BigDecimal("0.05")) > 0) { // atan x = 2 atan(x/(1+sqrt(1+x^2)))
            x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, MX), MX).sqrt(MX), MX), MX);
            h++;
        }
        BigDecimal x2 = x.multiply(x, MX), t = x, s = x;
        for (int k = 1; k < 200 && !tiny(t); k++) {
            t = t.multiply(x2, MX).negate();
            s = s.add(t.divide(BigDecimal.valueOf(2 * k + 1), MX), MX);
        }
        return s.multiply(BigDecimal.valueOf(1L << h), MX);
    }
    public static Value RSin(final Value x) { BigDecimal a = g(x); return a == null || a.abs().compareTo(SINMAX) > 0 ? NAN : w(sin(a).round(MC)); }
    public static Value RCos(final Value x) {
        BigDecimal a = g(x);
        return a == null || a.abs().compareTo(SINMAX) > 0 ? NAN : w(sin(a.add(PI.divide(BigDecimal.valueOf(2), MX), MX)).round(MC));
    }
    public static Value RAtan2(final Value y, final Value x) {
        BigDecimal q = g(y), p = g(x);
        if (q == null || p == null) return NAN;
        BigDecimal half = PI.divide(BigDecimal.valueOf(2), MX);
        if (p.signum() == 0) return w(q.signum() == 0 ? BigDecimal.ZERO : (q.signum() > 0 ? half : half.negate()).round(MC));
        BigDecimal r = atan(q.divide(p, MX));
        if (p.signum() < 0) r = q.signum() >= 0 ? r.add(PI, MX) : r.subtract(PI, MX);
        return w(r.round(MC));
    }
    static BigDecimal exp(BigDecimal x) {
        BigDecimal k = x.divide(LN2, MX).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(k.multiply(LN2, MX), MX), t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int i = 1; i < 200 && !tiny(t); i++) { t = t.multiply(r, MX).divide(BigDecimal.valueOf(i), MX); s = s.add(t, MX); }
        int n = k.intValueExact();
        BigDecimal p = new BigDecimal(BigInteger.TWO.pow(Math.abs(n)));
        return n >= 0 ? s.multiply(p, MX) : s.divide(p, MX);
    }
    static final BigDecimal EXPMAX = new BigDecimal("1e5"), SINMAX = new BigDecimal("1e15");
    public static Value RExp(final Value x) { BigDecimal a = g(x); return a == null || a.abs().compareTo(EXPMAX) > 0 ? NAN : w(exp(a).round(MC)); }
    public static Value RLog(final Value x) {
        BigDecimal a = g(x);
        if (a == null || a.signum() <= 0) return NAN;
        BigDecimal y = new BigDecimal(Math.log(a.doubleValue()), MX);
        for (int i = 0; i < 4; i++) { BigDecimal e = exp(y); y = y.add(a.subtract(e, MX).divide(e, MX), MX); }
        return w(y.round(MC));
    }
    public static Value RPi() { return w(PI.round(MC)); }
    public static Value RFloor(final Value x) {
        BigDecimal a = g(x);
        if (a == null) throw new RuntimeException("RFloor of NaN");
        return IntValue.gen(a.setScale(0, RoundingMode.FLOOR).intValueExact());
    }
    public static Value RStr(final Value x) { return new StringValue(str(g(x))); }
    public static Value RPow(final Value x, final Value n) {
        BigDecimal a = g(x);
        return a == null ? NAN : w(a.pow(((IntValue) n).val, MC));
    }
    static Value[] seq(Value s) {
        Value t = s.toTuple();
        if (t == null) throw new RuntimeException("Num: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }
    public static Value RSum(final Value s) {
        BigDecimal r = BigDecimal.ZERO;
        for (Value x : seq(s)) { BigDecimal a = g(x); if (a == null) return NAN; r = r.add(a, MC); }
        return w(r);
    }
    public static Value RDot(final Value s, final Value t) {
        Value[] a = seq(s), c = seq(t);
        if (a.length != c.length) return NAN;
        BigDecimal r = BigDecimal.ZERO;
        for (int i = 0; i < a.length; i++) {
            BigDecimal p = g(a[i]), q = g(c[i]);
            if (p == null || q == null) return NAN;
            if (p.signum() == 0 || q.signum() == 0) continue;
            r = r.add(p.multiply(q, MC), MC);
        }
        return w(r);
    }
    public static Value RMaxAbs(final Value s) {
        BigDecimal r = BigDecimal.ZERO;
        for (Value x : seq(s)) { BigDecimal a = g(x); if (a == null) return NAN; r = r.max(a.abs()); }
        return w(r);
    }
    public static Value RSeq(final Value s) {
        Value[] a = seq(s), c = new Value[a.length];
        for (int i = 0; i < a.length; i++) c[i] = R(a[i]);
        return new TupleValue(c);
    }
}
