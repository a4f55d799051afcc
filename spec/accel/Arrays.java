import tlc2.value.impl.*;

/** Native evaluation of operators of Arrays.tla (same results, faster). */
public class Arrays {
    private static Value[] seq(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Arrays: sequence expected, got " + v);
        return t.elems;
    }
    private static int num(final Value v) {
        if (!(v instanceof IntValue)) throw new RuntimeException("Arrays: integer expected, got " + v);
        return ((IntValue) v).val;
    }
    private static int[] nums(final Value v) {
        final Value[] s = seq(v);
        final int[] r = new int[s.length];
        for (int i = 0; i < r.length; i++) r[i] = num(s[i]);
        return r;
    }
    private static int exact(final long s) {
        if (s != (int) s) throw new RuntimeException("Arrays: overflow of 32 bits");
        return (int) s;
    }
    private static Value ints(final int[] x) {
        final Value[] o = new Value[x.length];
        for (int i = 0; i < x.length; i++) o[i] = IntValue.gen(x[i]);
        return new TupleValue(o);
    }
    private static int prod(final int[] s, final int from, final int to) {
        long p = 1;
        for (int i = from; i < to; i++) p = exact(p * s[i]);
        return (int) p;
    }

    public static Value Iota(final Value n) {
        final Value[] o = new Value[Math.max(0, num(n))];
        for (int i = 0; i < o.length; i++) o[i] = IntValue.gen(i + 1);
        return new TupleValue(o);
    }
    public static Value SumSeq(final Value s) {
        long r = 0;
        for (final int x : nums(s)) r += x;
        return IntValue.gen(exact(r));
    }
    public static Value Prod(final Value s) { final int[] x = nums(s); return IntValue.gen(prod(x, 0, x.length)); }
    public static Value MaxSeq(final Value s) {
        int r = 0;
        for (final int x : nums(s)) r = Math.max(r, x);
        return IntValue.gen(r);
    }
    public static Value MaxAbs(final Value s) {
        int r = 0;
        for (final int x : nums(s)) r = Math.max(r, Math.abs(x));
        return IntValue.gen(r);
    }
    public static Value Rev(final Value s) {
        final Value[] x = seq(s), o = new Value[x.length];
        for (int i = 0; i < o.length; i++) o[i] = x[o.length - 1 - i];
        return new TupleValue(o);
    }
    public static Value Stride(final Value sh, final Value m) {
        final int[] s = nums(sh);
        return IntValue.gen(prod(s, num(m), s.length));
    }
    public static Value Digit(final Value sh, final Value q, final Value m) {
        final int[] s = nums(sh);
        return IntValue.gen((num(q) / prod(s, num(m), s.length)) % s[num(m) - 1]);
    }
    private static int[] unflat(final int[] s, int q) {
        final int[] o = new int[s.length];
        for (int i = s.length - 1; i >= 0; i--) { o[i] = q % s[i]; q /= s[i]; }
        return o;
    }
    public static Value Unflatten(final Value sh, final Value q) { return ints(unflat(nums(sh), num(q))); }
    public static Value Flatten(final Value sh, final Value ix) {
        final int[] s = nums(sh), x = nums(ix);
        long r = 0;
        for (int i = 0; i < s.length; i++) r = exact(r * s[i] + x[i]);
        return IntValue.gen((int) r);
    }
    public static Value Zeros(final Value sh) {
        final int[] s = nums(sh);
        return ints(new int[prod(s, 0, s.length)]);
    }
    private static Value permute(final int[] s, final Value[] v, final int[] perm) {
        final int d = s.length;
        final int[] ns = new int[d];
        for (int m = 0; m < d; m++) ns[m] = s[perm[m] - 1];
        final Value[] o = new Value[v.length];
        for (int q = 0; q < o.length; q++) {
            final int[] ix = unflat(ns, q);
            int r = 0;
            for (int m = 0; m < d; m++) r += ix[m] * prod(s, perm[m], d);
            o[q] = v[r];
        }
        return new TupleValue(o);
    }
    public static Value Permute(final Value sh, final Value v, final Value perm) {
        return permute(nums(sh), seq(v), nums(perm));
    }
    public static Value TransposeV(final Value sh, final Value v) {
        final int[] s = nums(sh), perm = new int[s.length];
        for (int m = 0; m < perm.length; m++) perm[m] = perm.length - m;
        return permute(s, seq(v), perm);
    }
    public static Value AddV(final Value x, final Value y) {
        final int[] a = nums(x), b = nums(y), o = new int[a.length];
        for (int i = 0; i < o.length; i++) o[i] = exact((long) a[i] + b[i]);
        return ints(o);
    }
    public static Value SubV(final Value x, final Value y) {
        final int[] a = nums(x), b = nums(y), o = new int[a.length];
        for (int i = 0; i < o.length; i++) o[i] = exact((long) a[i] - b[i]);
        return ints(o);
    }
    public static Value ScaleV(final Value c, final Value x) {
        final int[] a = nums(x), o = new int[a.length];
        final long k = num(c);
        for (int i = 0; i < o.length; i++) o[i] = exact(k * a[i]);
        return ints(o);
    }
    public static Value DivV(final Value x, final Value c) {
        final int[] a = nums(x), o = new int[a.length];
        final int k = num(c);
        for (int i = 0; i < o.length; i++) o[i] = k > 0 ? Math.floorDiv(a[i], k) : Math.floorDiv(-a[i], -k);
        return ints(o);
    }
    public static Value Transp(final Value A) {
        final Value[] rows = seq(A);
        final Value[][] r = new Value[rows.length][];
        for (int i = 0; i < r.length; i++) r[i] = seq(rows[i]);
        final Value[] o = new Value[r[0].length];
        for (int j = 0; j < o.length; j++) {
            final Value[] c = new Value[r.length];
            for (int i = 0; i < r.length; i++) c[i] = r[i][j];
            o[j] = new TupleValue(c);
        }
        return new TupleValue(o);
    }
    public static Value FlatMat(final Value A) {
        final Value[] rows = seq(A);
        final int nc = seq(rows[0]).length;
        final Value[] o = new Value[rows.length * nc];
        for (int i = 0; i < rows.length; i++) System.arraycopy(seq(rows[i]), 0, o, i * nc, nc);
        return new TupleValue(o);
    }
    public static Value ToMat(final Value v, final Value nr, final Value nc) {
        final Value[] x = seq(v), o = new Value[num(nr)];
        final int n = num(nc);
        for (int i = 0; i < o.length; i++) {
            final Value[] row = new Value[n];
            System.arraycopy(x, i * n, row, 0, n);
            o[i] = new TupleValue(row);
        }
        return new TupleValue(o);
    }
    public static Value RankMod(final Value A, final Value p) {
        final Value[] rows = seq(A);
        final long P = num(p);
        final long[][] a = new long[rows.length][];
        for (int i = 0; i < a.length; i++) {
            final int[] r = nums(rows[i]);
            a[i] = new long[r.length];
            for (int j = 0; j < r.length; j++) a[i][j] = Math.floorMod((long) r[j], P);
        }
        int rank = 0;
        for (int c = 0; rank < a.length && c < a[0].length; c++) {
            int piv = rank;
            while (piv < a.length && a[piv][c] == 0) piv++;
            if (piv == a.length) continue;
            final long[] t = a[piv]; a[piv] = a[rank]; a[rank] = t;
            long inv = 1, b = t[c], e = P - 2;
            while (e > 0) { if ((e & 1) == 1) inv = inv * b % P; b = b * b % P; e >>= 1; }
            for (int i = rank + 1; i < a.length; i++) {
                final long f = a[i][c] * inv % P;
                if (f != 0) for (int j = c; j < a[i].length; j++) a[i][j] = Math.floorMod(a[i][j] - f * t[j], P);
            }
            rank++;
        }
        return IntValue.gen(rank);
    }
}
