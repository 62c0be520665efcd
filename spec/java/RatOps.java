import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Java implementations of the operators declared (and defined on small integers) in Rat.tla. */
public class RatOps implements ITLCOverrides {
    public Class[] get() { return new Class[] { RatOps.class }; }

    static final int TRIM = 160;

    static RatValue r(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        if (v instanceof LazyValue) throw new RuntimeException("Rat: lazy value");
        Value t = v.toTuple();
        if (t instanceof TupleValue && ((TupleValue) t).elems.length == 2)
            return r(((TupleValue) t).elems[0]).div(r(((TupleValue) t).elems[1]));
        throw new RuntimeException("Rat: cannot convert " + v);
    }
    static RatValue parse(String s) {
        int k = s.indexOf('/');
        if (k > 0) return RatValue.of(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        if (s.indexOf('x') < 0 && s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('n') < 0)
            return RatValue.of(new BigInteger(s), BigInteger.ONE);
        return RatValue.of(dbl(s));
    }
    static double dbl(String s) {
        if (s.equals("nan") || s.equals("-nan")) return Double.NaN;
        if (s.equals("inf")) return Double.POSITIVE_INFINITY;
        if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
        return Double.parseDouble(s);
    }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + v.getKindString());
        return ((TupleValue) t).elems;
    }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value R(Value a) { return r(a); }
    @TLAPlusOperator(identifier = "RQ", module = "Rat", warn = false)
    public static Value RQ(Value a, Value c) { return r(a).div(r(c)); }
    @TLAPlusOperator(identifier = "RIsFinite", module = "Rat", warn = false)
    public static Value RIsFinite(Value a) {
        if (a instanceof StringValue) {
            String s = ((StringValue) a).val.toString();
            return b(!(s.contains("nan") || s.contains("inf")));
        }
        return b(true);
    }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(Value a, Value c) { return r(a).add(r(c)); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(Value a, Value c) { return r(a).sub(r(c)); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(Value a, Value c) { return r(a).mul(r(c)); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(Value a, Value c) { return r(a).div(r(c)); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(Value a) { return r(a).neg(); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(Value a) { RatValue x = r(a); return x.n.signum() < 0 ? x.neg() : x; }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value RLe(Value a, Value c) { return b(r(a).cmp(r(c)) <= 0); }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value RLt(Value a, Value c) { return b(r(a).cmp(r(c)) < 0); }
    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value REq(Value a, Value c) { return b(r(a).cmp(r(c)) == 0); }
    @TLAPlusOperator(identifier = "RSgn", module = "Rat", warn = false)
    public static Value RSgn(Value a) { return IntValue.gen(r(a).n.signum()); }
    @TLAPlusOperator(identifier = "RTrim", module = "Rat", warn = false)
    public static Value RTrim(Value a) { return r(a).trim(TRIM); }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value RFloor(Value a) {
        RatValue x = r(a);
        BigInteger[] q = x.n.divideAndRemainder(x.d);
        BigInteger f = q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
        return IntValue.gen(f.intValueExact());
    }
    @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
    public static Value RShow(Value a) { return new StringValue(String.format("%.12g", r(a).dbl())); }

    /** floor(sqrt(x) * 2^TRIM) / 2^TRIM */
    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value RSqrt(Value a) {
        RatValue x = r(a);
        if (x.n.signum() < 0) throw new RuntimeException("RSqrt of a negative number");
        BigInteger s = x.n.shiftLeft(2 * TRIM).divide(x.d).sqrt();
        return RatValue.of(s, BigInteger.ONE.shiftLeft(TRIM));
    }

    static final MathContext MC = new MathContext(50);
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459");
    static RatValue fromBD(BigDecimal v) {
        BigInteger u = v.unscaledValue();
        int sc = v.scale();
        return (sc >= 0 ? RatValue.of(u, BigInteger.TEN.pow(sc)) : RatValue.of(u.multiply(BigInteger.TEN.pow(-sc)), BigInteger.ONE)).trim(TRIM);
    }
    static BigDecimal bd(RatValue x) { return new BigDecimal(x.n).divide(new BigDecimal(x.d), MC); }
    static BigDecimal sinBD(BigDecimal x) {
        BigDecimal twoPi = PI.multiply(BigDecimal.valueOf(2));
        BigDecimal k = x.divide(twoPi, MC).setScale(0, java.math.RoundingMode.HALF_EVEN);
        x = x.subtract(k.multiply(twoPi), MC);
        BigDecimal t = x, s = x, x2 = x.multiply(x, MC);
        for (int i = 1; i < 60; i++) {
            t = t.multiply(x2, MC).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), MC).negate();
            s = s.add(t, MC);
        }
        return s;
    }
    @TLAPlusOperator(identifier = "RSin", module = "Rat", warn = false)
    public static Value RSin(Value a) { return fromBD(sinBD(bd(r(a)))); }
    @TLAPlusOperator(identifier = "RCos", module = "Rat", warn = false)
    public static Value RCos(Value a) { return fromBD(sinBD(bd(r(a)).add(PI.divide(BigDecimal.valueOf(2), MC)))); }
    @TLAPlusOperator(identifier = "RPi", module = "Rat", warn = false)
    public static Value RPi() { return fromBD(PI); }

    /** sum of a sequence */
    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value RSum(Value s) {
        RatValue acc = RatValue.ZERO;
        for (Value v : seq(s)) acc = acc.add(r(v));
        return acc;
    }
    /** sum of a[i]*b[i] */
    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value RDot(Value s, Value t) {
        Value[] x = seq(s), y = seq(t);
        if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
        RatValue acc = RatValue.ZERO;
        for (int i = 0; i < x.length; i++) acc = acc.add(r(x[i]).mul(r(y[i])));
        return acc.trim(TRIM);
    }
    static TupleValue tup(RatValue[] v) { return new TupleValue(v); }

    @TLAPlusOperator(identifier = "VAdd", module = "Rat", warn = false)
    public static Value VAdd(Value s, Value t) {
        Value[] x = seq(s), y = seq(t);
        RatValue[] z = new RatValue[x.length];
        for (int i = 0; i < z.length; i++) z[i] = r(x[i]).add(r(y[i]));
        return tup(z);
    }
    @TLAPlusOperator(identifier = "VSub", module = "Rat", warn = false)
    public static Value VSub(Value s, Value t) {
        Value[] x = seq(s), y = seq(t);
        RatValue[] z = new RatValue[x.length];
        for (int i = 0; i < z.length; i++) z[i] = r(x[i]).sub(r(y[i]));
        return tup(z);
    }
    @TLAPlusOperator(identifier = "VScale", module = "Rat", warn = false)
    public static Value VScale(Value k, Value s) {
        Value[] x = seq(s);
        RatValue c = r(k);
        RatValue[] z = new RatValue[x.length];
        for (int i = 0; i < z.length; i++) z[i] = c.mul(r(x[i])).trim(TRIM);
        return tup(z);
    }
    /** sum over i of c[i] * v[i]  (v a sequence of vectors) */
    @TLAPlusOperator(identifier = "VComb", module = "Rat", warn = false)
    public static Value VComb(Value cs, Value vs) {
        Value[] c = seq(cs), v = seq(vs);
        if (c.length != v.length) throw new RuntimeException("VComb: lengths differ");
        int dim = seq(v[0]).length;
        RatValue[] z = new RatValue[dim];
        java.util.Arrays.fill(z, RatValue.ZERO);
        for (int i = 0; i < c.length; i++) {
            RatValue k = r(c[i]);
            if (k.n.signum() == 0) continue;
            Value[] w = seq(v[i]);
            for (int j = 0; j < dim; j++) z[j] = z[j].add(k.mul(r(w[j])));
        }
        for (int j = 0; j < dim; j++) z[j] = z[j].trim(TRIM);
        return tup(z);
    }
    /** convert a (nested) sequence of number strings into a (nested) sequence of rationals, trimmed to 2^-60 */
    @TLAPlusOperator(identifier = "RReadAll", module = "Rat", warn = false)
    public static Value RReadAll(Value v) {
        if (v instanceof StringValue || v instanceof IntValue || v instanceof RatValue) return r(v);
        Value[] x = seq(v);
        Value[] z = new Value[x.length];
        for (int i = 0; i < z.length; i++) z[i] = RReadAll(x[i]);
        return new TupleValue(z);
    }
    /** TRUE iff every leaf of a nested sequence is a finite number */
    @TLAPlusOperator(identifier = "RAllFinite", module = "Rat", warn = false)
    public static Value RAllFinite(Value v) { return b(allFinite(v)); }
    static boolean allFinite(Value v) {
        if (v instanceof StringValue) {
            String s = ((StringValue) v).val.toString();
            return !(s.contains("nan") || s.contains("inf"));
        }
        if (v instanceof IntValue || v instanceof RatValue) return true;
        for (Value w : seq(v)) if (!allFinite(w)) return false;
        return true;
    }

    // ---- Knots: the same functions as their TLA+ definitions, without intermediate values (KnotsTest.tla compares)
    static final RatValue KTOL = RatValue.of(BigInteger.ONE, BigInteger.valueOf(1000000));
    static boolean keq(Value a, Value c) {
        if (a instanceof IntValue && c instanceof IntValue) return ((IntValue) a).val == ((IntValue) c).val;
        RatValue x = r(a), y = r(c);
        RatValue d = x.sub(y);
        if (d.n.signum() < 0) d = d.neg();
        return d.cmp(KTOL) < 0;
    }
    @TLAPlusOperator(identifier = "KEq", module = "Knots", warn = false)
    public static Value KEq(Value a, Value c) { return b(keq(a, c)); }
    @TLAPlusOperator(identifier = "KMult", module = "Knots", warn = false)
    public static Value KMult(Value U, Value u) {
        Value x = u instanceof IntValue ? u : r(u);
        int k = 0;
        for (Value v : seq(U)) if (keq(v, x)) k++;
        return IntValue.gen(k);
    }
    @TLAPlusOperator(identifier = "NonDecreasing", module = "Knots", warn = false)
    public static Value NonDecreasing(Value U) {
        Value[] x = seq(U);
        for (int i = 0; i + 1 < x.length; i++) if (r(x[i]).cmp(r(x[i + 1])) > 0) return b(false);
        return b(true);
    }
    @TLAPlusOperator(identifier = "KSpan", module = "Knots", warn = false)
    public static Value KSpan(Value pv, Value U, Value uv) {
        Value[] x = seq(U);
        int p = ((IntValue) pv).val, n = x.length - p - 1;   // 1-based: U[i] is x[i - 1]
        RatValue u = r(uv), hi = r(x[n]);
        if (hi.cmp(u) <= 0) {
            for (int i = n; i >= p + 1; i--) if (r(x[i - 1]).cmp(hi) < 0) return IntValue.gen(i);
        } else {
            for (int i = p + 1; i <= n; i++) if (r(x[i - 1]).cmp(u) <= 0 && u.cmp(r(x[i])) < 0) return IntValue.gen(i);
        }
        throw new RuntimeException("KSpan: no span");
    }
    @TLAPlusOperator(identifier = "KDistinct", module = "Knots", warn = false)
    public static Value KDistinct(Value U) {
        Value[] x = seq(U);
        java.util.ArrayList<Value> z = new java.util.ArrayList<>();
        for (Value v : x) if (z.isEmpty() || !keq(z.get(z.size() - 1), v)) z.add(v);
        return new TupleValue(z.toArray(new Value[0]));
    }

    // ---- Poly
    static double fd(Value v) {
        RatValue q = r(v);
        if (q.n.bitLength() < 1000 && q.d.bitLength() < 1000) return q.n.doubleValue() / q.d.doubleValue();
        return q.dbl();
    }
    static double[] fd3(Value v) {
        Value[] x = seq(v);
        double[] z = new double[x.length];
        for (int i = 0; i < z.length; i++) z[i] = fd(x[i]);
        return z;
    }
    static RatValue segDist2(Value av, Value bv, Value xv) {
        Value[] a = seq(av), c = seq(bv), x = seq(xv);
        RatValue l2 = RatValue.ZERO, dot = RatValue.ZERO, res = RatValue.ZERO;
        for (int i = 0; i < a.length; i++) {
            RatValue d = r(c[i]).sub(r(a[i]));
            l2 = l2.add(d.mul(d));
            dot = dot.add(r(x[i]).sub(r(a[i])).mul(d));
        }
        RatValue t = l2.n.signum() == 0 ? RatValue.ZERO : dot.div(l2);
        if (t.n.signum() < 0) t = RatValue.ZERO;
        if (t.cmp(RatValue.ONE) > 0) t = RatValue.ONE;
        for (int i = 0; i < a.length; i++) {
            RatValue d = r(x[i]).sub(r(a[i])).sub(t.mul(r(c[i]).sub(r(a[i]))));
            res = res.add(d.mul(d));
        }
        return res;
    }
    /** double arithmetic where it decides, exact arithmetic in the doubtful cases */
    @TLAPlusOperator(identifier = "FirstNear", module = "Poly", warn = false)
    public static Value FirstNear(Value Pv, Value iv, Value xv, Value tv) {
        Value[] P = seq(Pv);
        double[] x = fd3(xv);
        double tol2 = fd(tv), mx = 0;
        for (double v : x) mx = Math.max(mx, Math.abs(v));
        double[] a = null;
        for (int i = ((IntValue) iv).val; i < P.length; i++) {
            if (a == null) a = fd3(P[i - 1]);
            double[] c = fd3(P[i]);
            double l2 = 0, dot = 0, d2 = 0, m = mx;
            for (int k = 0; k < 3; k++) {
                m = Math.max(m, Math.max(Math.abs(a[k]), Math.abs(c[k])));
                double d = c[k] - a[k];
                l2 += d * d;
                dot += (x[k] - a[k]) * d;
            }
            double t = l2 == 0 ? 0 : Math.max(0, Math.min(1, dot / l2));
            for (int k = 0; k < 3; k++) {
                double d = x[k] - a[k] - t * (c[k] - a[k]);
                d2 += d * d;
            }
            double dist = Math.sqrt(d2), tol = Math.sqrt(tol2), slack = 1e-9 * (m + tol);
            boolean near = dist < tol - slack || dist < tol + slack && segDist2(P[i - 1], P[i], xv).cmp(r(tv)) <= 0;
            if (near) return IntValue.gen(i);
            a = c;
        }
        return IntValue.gen(0);
    }
}
