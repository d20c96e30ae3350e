package vrat;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Exact rational arithmetic for TLC.  TLC's integers are 32 bit, so a rational
 * number is a TLA+ string "n" or "n/d" in lowest terms (d > 1), or a TLC
 * integer.  Everything else ("nan", "inf", a record, ...) is "not a number":
 * arithmetic on it yields "nan" and every comparison with it is FALSE, so the
 * verdict operators of the trace specifications are total.
 */
public final class RatOps {
    private RatOps() { }

    private static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    private static final Value NAN = new StringValue("nan");

    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        Q abs() { return new Q(n.abs(), d); }
        BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
    }

    private static Q of(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            int i = s.indexOf('/');
            try {
                if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE);
                BigInteger d = new BigInteger(s.substring(i + 1));
                if (d.signum() == 0) return null;
                return new Q(new BigInteger(s.substring(0, i)), d);
            } catch (NumberFormatException e) {
                return null;
            }
        }
        return null;
    }

    private static Value val(Q q) {
        if (q == null) return NAN;
        return new StringValue(q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n.toString() + "/" + q.d.toString());
    }

    /** Rounds to 60 significant digits (transcendental results only). */
    private static Q fromDec(BigDecimal b) {
        b = b.round(new MathContext(50, RoundingMode.HALF_EVEN));
        BigInteger u = b.unscaledValue();
        int sc = b.scale();
        if (sc <= 0) return new Q(u.multiply(BigInteger.TEN.pow(-sc)), BigInteger.ONE);
        return new Q(u, BigInteger.TEN.pow(sc));
    }

    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RNum", module = "Rat", warn = false)
    public static Value isNum(final Value a) { return bool(of(a) != null); }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value frac(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return (x == null || y == null || y.n.signum() == 0) ? NAN : val(x.div(y));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value add(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return (x == null || y == null) ? NAN : val(x.add(y));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value sub(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return (x == null || y == null) ? NAN : val(x.sub(y));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value mul(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return (x == null || y == null) ? NAN : val(x.mul(y));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value div(final Value a, final Value b) { return frac(a, b); }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value neg(final Value a) {
        Q x = of(a);
        return x == null ? NAN : val(new Q(x.n.negate(), x.d));
    }

    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value abs(final Value a) {
        Q x = of(a);
        return x == null ? NAN : val(x.abs());
    }

    @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
    public static Value min(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return (x == null || y == null) ? NAN : val(x.cmp(y) <= 0 ? x : y);
    }

    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value max(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return (x == null || y == null) ? NAN : val(x.cmp(y) >= 0 ? x : y);
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value le(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return bool(x != null && y != null && x.cmp(y) <= 0);
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value lt(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return bool(x != null && y != null && x.cmp(y) < 0);
    }

    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value eq(final Value a, final Value b) {
        Q x = of(a), y = of(b);
        return bool(x != null && y != null && x.cmp(y) == 0);
    }

    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value floor(final Value a) {
        Q x = of(a);
        if (x == null) return NAN;
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return val(new Q(f, BigInteger.ONE));
    }

    @TLAPlusOperator(identifier = "RIsInt", module = "Rat", warn = false)
    public static Value isInt(final Value a) {
        Q x = of(a);
        return bool(x != null && x.d.equals(BigInteger.ONE));
    }

    /** Rational -> TLC integer (32 bit); out of range or non-integral gives -2147483648. */
    @TLAPlusOperator(identifier = "RToInt", module = "Rat", warn = false)
    public static Value toInt(final Value a) {
        Q x = of(a);
        if (x == null || !x.d.equals(BigInteger.ONE) || x.n.bitLength() > 30) return IntValue.gen(Integer.MIN_VALUE);
        return IntValue.gen(x.n.intValue());
    }

    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value pow(final Value a, final Value k) {
        Q x = of(a), e = of(k);
        if (x == null || e == null || !e.d.equals(BigInteger.ONE) || e.n.bitLength() > 20) return NAN;
        int i = e.n.intValue();
        if (i >= 0) return val(new Q(x.n.pow(i), x.d.pow(i)));
        if (x.n.signum() == 0) return NAN;
        return val(new Q(x.d.pow(-i), x.n.pow(-i)));
    }

    private static Value[] seq(Value s) {
        Value t = s.toTuple();
        return t == null ? null : ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value sum(final Value s) {
        Value[] e = seq(s);
        if (e == null) return NAN;
        Q acc = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (Value v : e) {
            Q q = of(v);
            if (q == null) return NAN;
            acc = acc.add(q);
        }
        return val(acc);
    }

    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value dot(final Value s, final Value t) {
        Value[] a = seq(s), b = seq(t);
        if (a == null || b == null || a.length != b.length) return NAN;
        Q acc = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (int i = 0; i < a.length; i++) {
            Q p = of(a[i]), q = of(b[i]);
            if (p == null || q == null) return NAN;
            acc = acc.add(p.mul(q));
        }
        return val(acc);
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value sqrt(final Value a) {
        Q x = of(a);
        if (x == null || x.n.signum() < 0) return NAN;
        if (x.n.signum() == 0) return val(x);
        return val(fromDec(x.dec().sqrt(MC)));
    }

    @TLAPlusOperator(identifier = "RExp", module = "Rat", warn = false)
    public static Value exp(final Value a) {
        Q x = of(a);
        if (x == null) return NAN;
        BigDecimal v = x.dec();
        if (v.abs().compareTo(BigDecimal.valueOf(5000)) > 0) return NAN;
        return val(fromDec(expDec(v)));
    }

    private static BigDecimal expDec(BigDecimal v) {
        MathContext mc = new MathContext(80, RoundingMode.HALF_EVEN);
        int halvings = 0;
        BigDecimal y = v;
        while (y.abs().compareTo(new BigDecimal("0.01")) > 0) { y = y.divide(BigDecimal.valueOf(2), mc); halvings++; }
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int k = 1; k < 60; k++) {
            term = term.multiply(y, mc).divide(BigDecimal.valueOf(k), mc);
            if (term.signum() == 0) break;
            sum = sum.add(term, mc);
            if (term.abs().compareTo(new BigDecimal("1e-75")) < 0) break;
        }
        for (int k = 0; k < halvings; k++) sum = sum.multiply(sum, mc);
        return sum;
    }

    @TLAPlusOperator(identifier = "RLn", module = "Rat", warn = false)
    public static Value ln(final Value a) {
        Q x = of(a);
        if (x == null || x.n.signum() <= 0) return NAN;
        MathContext mc = new MathContext(80, RoundingMode.HALF_EVEN);
        BigDecimal v = new BigDecimal(x.n).divide(new BigDecimal(x.d), mc);
        // Newton on exp(y) = v from a double starting point.
        int sc = v.precision() - v.scale() - 1;
        double y0 = Math.log(v.scaleByPowerOfTen(-sc).doubleValue()) + sc * Math.log(10.0);
        BigDecimal y = new BigDecimal(y0);
        for (int k = 0; k < 5; k++) {
            BigDecimal e = expDec(y);
            // Halley: y += 2 (v - e)/(v + e)
            y = y.add(BigDecimal.valueOf(2).multiply(v.subtract(e, mc), mc).divide(v.add(e, mc), mc), mc);
        }
        if (y.signum() == 0) return val(new Q(BigInteger.ZERO, BigInteger.ONE));
        if (y.abs().compareTo(new BigDecimal("1e-60")) < 0) return val(new Q(BigInteger.ZERO, BigInteger.ONE));
        return val(fromDec(y));
    }
}
