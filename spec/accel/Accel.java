import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.value.impl.*;

/** Native evaluation of the operators of Accel.tla (same results, faster). */
public class Accel {
    private static final BigInteger K = BigInteger.valueOf(1000);

    static Value[] seq(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Accel: sequence expected, got " + v);
        return t.elems;
    }
    private static int num(final Value v) { return ((IntValue) v).val; }

    static BigInteger big(final Value v) {
        final Value[] d = seq(v);
        boolean small = d.length <= 6;
        if (small) {
            long r = 0;
            for (int i = d.length - 1; i >= 0; i--) {
                final int x = num(d[i]);
                if (x > 1000000 || x < -1000000) { small = false; break; }
                r = r * 1000 + x;
            }
            if (small) return BigInteger.valueOf(r);
        }
        BigInteger r = BigInteger.ZERO;
        for (int i = d.length - 1; i >= 0; i--) r = r.multiply(K).add(BigInteger.valueOf(num(d[i])));
        return r;
    }
    static Value tup(BigInteger x) {
        final ArrayList<Value> out = new ArrayList<>();
        final boolean neg = x.signum() < 0;
        final BigInteger end = neg ? BigInteger.ONE.negate() : BigInteger.ZERO;
        while (!x.equals(end)) {
            final BigInteger m = x.mod(K);
            out.add(IntValue.gen(m.intValue()));
            x = x.subtract(m).divide(K);
        }
        out.add(IntValue.gen(neg ? -1 : 0));
        return new TupleValue(out.toArray(new Value[0]));
    }
    private static int exact(final long s) {
        if (s != (int) s) throw new RuntimeException("Accel: overflow of 32 bits");
        return (int) s;
    }

    public static Value DotV(final Value x, final Value y) {
        final Value[] a = seq(x), b = seq(y);
        long s = 0;
        for (int i = 0; i < a.length; i++) s = Math.addExact(s, (long) num(a[i]) * num(b[i]));
        return IntValue.gen(exact(s));
    }
    public static Value MatMul(final Value A, final Value B) {
        final Value[] ar = seq(A), br = seq(B);
        final int[][] b = new int[br.length][];
        for (int k = 0; k < br.length; k++) {
            final Value[] row = seq(br[k]);
            b[k] = new int[row.length];
            for (int j = 0; j < row.length; j++) b[k][j] = num(row[j]);
        }
        final int m = b[0].length;
        final Value[] out = new Value[ar.length];
        for (int i = 0; i < ar.length; i++) {
            final Value[] a = seq(ar[i]);
            final Value[] o = new Value[m];
            for (int j = 0; j < m; j++) {
                long s = 0;
                for (int k = 0; k < b.length; k++) s = Math.addExact(s, (long) num(a[k]) * b[k][j]);
                o[j] = IntValue.gen(exact(s));
            }
            out[i] = new TupleValue(o);
        }
        return new TupleValue(out);
    }
    public static Value BNorm(final Value x) { return tup(big(x)); }
    public static Value BSign(final Value x) { return IntValue.gen(big(x).signum()); }
    public static Value BAdd(final Value x, final Value y) { return tup(big(x).add(big(y))); }
    public static Value BSub(final Value x, final Value y) { return tup(big(x).subtract(big(y))); }
    public static Value BMul(final Value x, final Value y) { return tup(big(x).multiply(big(y))); }
    public static Value BDotV(final Value x, final Value y) {
        final Value[] a = seq(x), b = seq(y);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) s = s.add(big(a[i]).multiply(big(b[i])));
        return tup(s);
    }
    public static Value BMatMul(final Value A, final Value B) {
        final Value[] ar = seq(A), br = seq(B);
        final BigInteger[][] b = new BigInteger[br.length][];
        for (int k = 0; k < br.length; k++) {
            final Value[] row = seq(br[k]);
            b[k] = new BigInteger[row.length];
            for (int j = 0; j < row.length; j++) b[k][j] = big(row[j]);
        }
        final int m = b[0].length;
        final Value[] out = new Value[ar.length];
        for (int i = 0; i < ar.length; i++) {
            final Value[] av = seq(ar[i]);
            final BigInteger[] a = new BigInteger[av.length];
            for (int k = 0; k < a.length; k++) a[k] = big(av[k]);
            final Value[] o = new Value[m];
            for (int j = 0; j < m; j++) {
                BigInteger s = BigInteger.ZERO;
                for (int k = 0; k < b.length; k++) s = s.add(a[k].multiply(b[k][j]));
                o[j] = tup(s);
            }
            out[i] = new TupleValue(o);
        }
        return new TupleValue(out);
    }
}
