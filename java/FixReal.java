// Evaluates the operators of spec/FixReal.tla with big integers (TLC's own
// integers have 32 bits).  One method per TLA+ operator, same formula.
// Out-of-range results saturate, so that a verdict over an absurd observed
// value is "not equal" and never an evaluation error.
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class FixReal {
    private static final BigInteger B = BigInteger.valueOf(1000000000L);
    private static final BigInteger U = BigInteger.valueOf(1000000000000000L);
    private static final BigInteger B2 = B.multiply(B);
    private static final BigInteger MAX =
        BigInteger.valueOf(2000000000L).multiply(B2);

    private static TupleValue tup(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null || t.elems.length != 3) {
            throw new RuntimeException("not a FixReal number: " + v);
        }
        return t;
    }

    private static BigInteger val(Value v) {
        Value[] e = tup(v).elems;
        long hi = ((IntValue) e[0]).val;
        long lo = (long) ((IntValue) e[1]).val * 1000000000L
            + ((IntValue) e[2]).val;
        if (hi == 0) return BigInteger.valueOf(lo);
        if (hi > -8 && hi < 8) return BigInteger.valueOf(hi * 1000000000000000000L + lo);
        return BigInteger.valueOf(hi).multiply(B2).add(BigInteger.valueOf(lo));
    }

    private static Value num(BigInteger v) {
        if (v.bitLength() < 63) {
            long x = v.longValue();
            long lo = Math.floorMod(x, 1000000000000000000L);
            long hi = Math.floorDiv(x, 1000000000000000000L);
            return mk(hi, lo);
        }
        if (v.compareTo(MAX) > 0) v = MAX;
        if (v.compareTo(MAX.negate()) < 0) v = MAX.negate();
        BigInteger[] qr = v.divideAndRemainder(B2);
        if (qr[1].signum() < 0) {
            qr[1] = qr[1].add(B2);
            qr[0] = qr[0].subtract(BigInteger.ONE);
        }
        return mk(qr[0].longValue(), qr[1].longValue());
    }

    private static Value mk(long hi, long lo) {
        return new TupleValue(new Value[] {
            IntValue.gen((int) hi),
            IntValue.gen((int) (lo / 1000000000L)),
            IntValue.gen((int) (lo % 1000000000L))});
    }

    private static BigInteger fdiv(BigInteger a, BigInteger b) {
        if (b.signum() == 0) return a.signum() < 0 ? MAX.negate() : MAX;
        BigInteger[] qr = a.divideAndRemainder(b);
        if (qr[1].signum() != 0 && (qr[1].signum() < 0) != (b.signum() < 0)) {
            return qr[0].subtract(BigInteger.ONE);
        }
        return qr[0];
    }

    private static BoolValue bool(boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static Value[] seq(Value v) {
        return ((TupleValue) v.toTuple()).elems;
    }

    public static Value FAdd(Value a, Value b) { return num(val(a).add(val(b))); }
    public static Value FSub(Value a, Value b) { return num(val(a).subtract(val(b))); }
    public static Value FNeg(Value a) { return num(val(a).negate()); }
    public static Value FAbs(Value a) { return num(val(a).abs()); }
    public static Value FMul(Value a, Value b) {
        return num(fdiv(val(a).multiply(val(b)), U));
    }
    public static Value FDiv(Value a, Value b) {
        return num(fdiv(val(a).multiply(U), val(b)));
    }
    public static Value FInt(Value n) {
        return num(BigInteger.valueOf(((IntValue) n).val).multiply(U));
    }
    public static Value FRat(Value p, Value q) {
        return num(fdiv(BigInteger.valueOf(((IntValue) p).val).multiply(U),
                        BigInteger.valueOf(((IntValue) q).val)));
    }
    public static Value FLe(Value a, Value b) { return bool(val(a).compareTo(val(b)) <= 0); }
    public static Value FLt(Value a, Value b) { return bool(val(a).compareTo(val(b)) < 0); }
    public static Value FFloor(Value a) { return IntValue.gen(fdiv(val(a), U).intValue()); }
    public static Value FSum(Value s) {
        BigInteger r = BigInteger.ZERO;
        for (Value v : seq(s)) r = r.add(val(v));
        return num(r);
    }
    public static Value FDot(Value u, Value v) {
        Value[] a = seq(u), b = seq(v);
        BigInteger r = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) {
            r = r.add(val(a[i]).multiply(val(b[i])));
        }
        return num(fdiv(r, U));
    }
}
