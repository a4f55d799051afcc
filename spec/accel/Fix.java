import java.math.BigInteger;
import tlc2.value.impl.*;

/** Native evaluation of FMatMul of Fix.tla. */
public class Fix {
    private static final BigInteger ONE9 = BigInteger.valueOf(1000000000L);
    public static Value FMatMul(final Value A, final Value B) {
        final Value[] ar = Accel.seq(A), br = Accel.seq(B);
        final BigInteger[][] b = new BigInteger[br.length][];
        for (int k = 0; k < br.length; k++) {
            final Value[] row = Accel.seq(br[k]);
            b[k] = new BigInteger[row.length];
            for (int j = 0; j < row.length; j++) b[k][j] = Accel.big(row[j]);
        }
        final int m = b[0].length;
        final Value[] out = new Value[ar.length];
        for (int i = 0; i < ar.length; i++) {
            final Value[] av = Accel.seq(ar[i]);
            final BigInteger[] a = new BigInteger[av.length];
            for (int k = 0; k < a.length; k++) a[k] = Accel.big(av[k]);
            final Value[] o = new Value[m];
            for (int j = 0; j < m; j++) {
                BigInteger s = BigInteger.ZERO;
                for (int k = 0; k < b.length; k++) s = s.add(a[k].multiply(b[k][j]));
                final BigInteger[] qr = s.divideAndRemainder(ONE9);
                o[j] = Accel.tup(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
            }
            out[i] = new TupleValue(o);
        }
        return new TupleValue(out);
    }
}
