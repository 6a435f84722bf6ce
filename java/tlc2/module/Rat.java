package tlc2.module;

import java.math.BigInteger;
import tlc2.tool.EvalException;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Accelerator for spec/Rat.tla.  Every method computes the operator of the same
 * name that Rat.tla defines in plain TLA+ (see RatPure.tla, and RatSelfTest.tla
 * which has TLC compare the two).  A rational is the TLA+ value <<s, N, D>>:
 * sign s in {-1,0,1}, N and D little-endian sequences of base-10000 digits
 * without leading zeros, gcd(N, D) = 1, D > 0.
 */
public class Rat {
    private static final int BASE_DIGITS = 4;

    /** A tuple value that remembers the big integers it denotes. */
    private static final class RatValue extends TupleValue {
        final transient BigInteger n, d;
        RatValue(Value[] e, BigInteger n, BigInteger d) { super(e); this.n = n; this.d = d; }
    }

    private static final TupleValue EMPTY = new TupleValue(new Value[0]);
    private static final IntValue[] DIGIT = new IntValue[10000];
    static { for (int i = 0; i < 10000; i++) DIGIT[i] = IntValue.gen(i); }
    private static final Value M1 = IntValue.gen(-1), Z0 = IntValue.gen(0), P1 = IntValue.gen(1);
    private static final TupleValue ONE = new TupleValue(new Value[] { DIGIT[1] });
    private static final long SMALL = 100_000_000L;

    private static TupleValue limbs(BigInteger a) {
        if (a.signum() == 0) return EMPTY;
        if (a.bitLength() < 63) {
            long v = a.longValue();
            if (v == 1) return ONE;
            int k = 0;
            for (long w = v; w > 0; w /= 10000) k++;
            Value[] e = new Value[k];
            for (int i = 0; i < k; i++) { e[i] = DIGIT[(int) (v % 10000)]; v /= 10000; }
            return new TupleValue(e);
        }
        String s = a.toString();
        int k = (s.length() + BASE_DIGITS - 1) / BASE_DIGITS;
        Value[] e = new Value[k];
        int end = s.length();
        for (int i = 0; i < k; i++) {
            int start = Math.max(0, end - BASE_DIGITS);
            int v = 0;
            for (int j = start; j < end; j++) v = 10 * v + (s.charAt(j) - '0');
            e[i] = DIGIT[v];
            end = start;
        }
        return new TupleValue(e);
    }

    private static BigInteger unlimbs(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int k = e.length;
        if (k <= 4) {
            long r = 0;
            for (int i = k - 1; i >= 0; i--) r = r * 10000 + ((IntValue) e[i]).val;
            return BigInteger.valueOf(r);
        }
        StringBuilder sb = new StringBuilder(4 * k);
        for (int i = k - 1; i >= 0; i--) {
            int d = ((IntValue) e[i]).val;
            sb.append((char) ('0' + d / 1000)).append((char) ('0' + d / 100 % 10))
              .append((char) ('0' + d / 10 % 10)).append((char) ('0' + d % 10));
        }
        return new BigInteger(sb.toString());
    }

    private static RatValue make(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new EvalException(tlc2.output.EC.GENERAL, "Rat: division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) d = BigInteger.ONE;
        else if (!d.equals(BigInteger.ONE)) {
            int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
            if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
            if (d.bitCount() != 1) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
        }
        int s = n.signum();
        return new RatValue(
            new Value[] { s < 0 ? M1 : s == 0 ? Z0 : P1, limbs(n.abs()), limbs(d) }, n, d);
    }

    private static RatValue of(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null || t.elems.length != 3)
            throw new EvalException(tlc2.output.EC.GENERAL, "Rat: not a rational: " + v);
        BigInteger n = unlimbs(t.elems[1]);
        if (((IntValue) t.elems[0]).val < 0) n = n.negate();
        return new RatValue(t.elems, n, unlimbs(t.elems[2]));
    }

    private static int cmp(Value a, Value b) {
        RatValue x = of(a), y = of(b);
        if (x.d.equals(y.d)) return x.n.compareTo(y.n);
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d));
    }

    public static Value RInt(Value i) {
        return make(BigInteger.valueOf(((IntValue) i).val), BigInteger.ONE);
    }
    public static Value RFrac(Value p, Value q) {
        return make(BigInteger.valueOf(((IntValue) p).val), BigInteger.valueOf(((IntValue) q).val));
    }
    public static Value RAdd(Value a, Value b) {
        RatValue x = of(a), y = of(b);
        if (x.d.equals(y.d)) return make(x.n.add(y.n), x.d);
        return make(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    public static Value RSub(Value a, Value b) {
        RatValue x = of(a), y = of(b);
        if (x.d.equals(y.d)) return make(x.n.subtract(y.n), x.d);
        return make(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    public static Value RMul(Value a, Value b) {
        RatValue x = of(a), y = of(b);
        return make(x.n.multiply(y.n), x.d.multiply(y.d));
    }
    public static Value RDiv(Value a, Value b) {
        RatValue x = of(a), y = of(b);
        return make(x.n.multiply(y.d), x.d.multiply(y.n));
    }
    public static Value RNeg(Value a) {
        RatValue x = of(a);
        return make(x.n.negate(), x.d);
    }
    public static Value RLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
