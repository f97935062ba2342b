import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Evaluation of the operators of Rationals.tla. */
public class Rationals {
    public static final class Q implements Comparable<Q> {
        public final BigInteger n, d;
        public Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new ArithmeticException("division by zero");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        public static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Q(BigInteger.ONE, BigInteger.ONE);
        public Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        public Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        public Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        public Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        public Q neg() { return new Q(n.negate(), d); }
        public int sgn() { return n.signum(); }
        public int compareTo(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    }
    private static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();
    public static Q parse(String s) {
        Q q = cache.get(s);
        if (q != null) return q;
        int i = s.indexOf('/'), p = s.indexOf('.');
        if (i >= 0) q = new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        else if (p >= 0) {
            q = new Q(new BigInteger(s.substring(0, p) + s.substring(p + 1)), BigInteger.TEN.pow(s.length() - p - 1));
        }
        else q = new Q(new BigInteger(s), BigInteger.ONE);
        if (cache.size() > 200000) cache.clear();
        cache.put(s, q);
        return q;
    }
    public static Q q(Value v) { return parse(((StringValue) v).val.toString()); }
    static Value str(Q q) { return new StringValue(q.toString()); }
    static Value str(BigInteger b) { return new StringValue(b.toString()); }

    public static Value IsRat(Value a) {
        try { String s = ((StringValue) a).val.toString(); return parse(s).toString().equals(s) ? BoolValue.ValTrue : BoolValue.ValFalse; }
        catch (RuntimeException e) { return BoolValue.ValFalse; }
    }
    public static Value IsTruth(Value a) {
        if (!(a instanceof StringValue)) return BoolValue.ValFalse;
        String s = ((StringValue) a).val.toString();
        return s.equals("true") || s.equals("false") ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RNorm(Value a) { return str(q(a)); }
    public static Value RInt(IntValue a) { return new StringValue(Integer.toString(a.val)); }
    public static Value RMake(Value a, Value b) { return str(q(a).div(q(b))); }
    public static Value RAdd(Value a, Value b) { return str(q(a).add(q(b))); }
    public static Value RSub(Value a, Value b) { return str(q(a).sub(q(b))); }
    public static Value RMul(Value a, Value b) { return str(q(a).mul(q(b))); }
    public static Value RDiv(Value a, Value b) { return str(q(a).div(q(b))); }
    public static Value RNeg(Value a) { return str(q(a).neg()); }
    public static Value RCmp(Value a, Value b) { return IntValue.gen(q(a).compareTo(q(b))); }
    public static Value RNum(Value a) { return str(q(a).n); }
    public static Value RDen(Value a) { return str(q(a).d); }
    public static BigInteger floor(Q q) {
        BigInteger[] r = q.n.divideAndRemainder(q.d);
        return r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0];
    }
    public static Value RFloor(Value a) { return str(floor(q(a))); }
    public static Value RCeil(Value a) { return str(floor(q(a).neg()).negate()); }
    public static Value RToInt(Value a) { return IntValue.gen(q(a).n.intValueExact()); }
    public static Value RBits(Value a) { return IntValue.gen(Math.max(q(a).n.bitLength(), q(a).d.bitLength())); }
    public static Value RQuot(Value a, Value b) { return str(q(a).n.divide(q(b).n)); }
    public static Value RRem(Value a, Value b) { return str(q(a).n.remainder(q(b).n)); }
    public static Value RGcd(Value a, Value b) { return str(q(a).n.gcd(q(b).n)); }
}
