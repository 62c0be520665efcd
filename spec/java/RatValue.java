import java.math.BigInteger;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/** An exact rational number as an opaque TLC value. Immutable, always in lowest terms, den > 0. */
public final class RatValue extends Value {
    public final BigInteger n, d;
    public static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
    public static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE, true);

    private RatValue(BigInteger n, BigInteger d, boolean raw) { this.n = n; this.d = d; }

    public static RatValue of(BigInteger n, BigInteger d) {
        int s = d.signum();
        if (s == 0) throw new ArithmeticException("Rat: division by zero");
        if (s < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return ZERO;
        if (d.equals(BigInteger.ONE)) return new RatValue(n, d, true);
        // cheap removal of common powers of two first
        int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
        if (d.bitLength() - 1 != d.getLowestSetBit()) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new RatValue(n, d, true);
    }
    public static RatValue of(long v) { return new RatValue(BigInteger.valueOf(v), BigInteger.ONE, true); }

    public static RatValue of(double x) {
        if (Double.isNaN(x) || Double.isInfinite(x)) throw new ArithmeticException("Rat: not a finite number: " + x);
        if (x == 0.0) return ZERO;
        long bits = Double.doubleToLongBits(x);
        int e = (int) ((bits >> 52) & 0x7ff);
        long m = bits & 0xfffffffffffffL;
        if (e == 0) e = 1; else m |= 0x10000000000000L;
        e -= 1075;
        if (bits < 0) m = -m;
        BigInteger bm = BigInteger.valueOf(m);
        if (e >= 0) return new RatValue(bm.shiftLeft(e), BigInteger.ONE, true);
        return of(bm, BigInteger.ONE.shiftLeft(-e));
    }
    public double dbl() {
        // good to ~1 ulp; only used for display and transcendental seeds
        return new java.math.BigDecimal(n).divide(new java.math.BigDecimal(d), new java.math.MathContext(25)).doubleValue();
    }
    public RatValue add(RatValue o) {
        if (n.signum() == 0) return o;
        if (o.n.signum() == 0) return this;
        if (d.equals(o.d)) return of(n.add(o.n), d);
        return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    public RatValue neg() { return new RatValue(n.negate(), d, true); }
    public RatValue sub(RatValue o) { return add(o.neg()); }
    public RatValue mul(RatValue o) {
        if (n.signum() == 0 || o.n.signum() == 0) return ZERO;
        return of(n.multiply(o.n), d.multiply(o.d));
    }
    public RatValue div(RatValue o) { return of(n.multiply(o.d), d.multiply(o.n)); }
    public int cmp(RatValue o) {
        int s = n.signum() - o.n.signum();
        if (s != 0) return s;
        return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    /** round to the nearest multiple of 2^-k when the denominator is larger than that */
    public RatValue trim(int k) {
        if (d.bitLength() <= k + 1) return this;
        BigInteger q = n.shiftLeft(k + 1).divide(d).add(BigInteger.ONE).shiftRight(1);
        return of(q, BigInteger.ONE.shiftLeft(k));
    }

    public byte getKind() { return USERVALUE; }
    public int compareTo(Object o) { return cmp(RatOps.r((Value) o)); }
    public boolean equals(Object o) { return (o instanceof Value) && cmp(RatOps.r((Value) o)) == 0; }
    public boolean member(Value v) { throw new RuntimeException("Rat is not a set"); }
    public boolean isFinite() { throw new RuntimeException("Rat is not a set"); }
    public Value takeExcept(ValueExcept e) { throw new RuntimeException("EXCEPT on Rat"); }
    public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on Rat"); }
    public int size() { throw new RuntimeException("Rat is not a set"); }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, n.toString()), d.toString()); }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
        return sb.append("Rat(").append(d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d).append(")");
    }
}
