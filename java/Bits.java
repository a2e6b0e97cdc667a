// Fast evaluation of operators of spec/Bits.tla.  TLC uses these in place of the definitions
// when this class is on its class path; spec/Fast.tla checks that the two agree.
import tlc2.value.impl.*;

public final class Bits {
  static Value[] seq(Value d) {
    if (d instanceof TupleValue) return ((TupleValue) d).elems;
    Value t = d.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + d);
    return ((TupleValue) t).elems;
  }
  static int in(Value v) { return ((IntValue) v).val; }
  static Value of(int v) { return IntValue.gen(v); }
  static Value of(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int at(Value[] d, int p) { return (in(d[p >> 3]) >> (7 - (p & 7))) & 1; }
  static int read(Value[] d, int p, int w) {
    int v = 0;
    while (w > 0) {
      int off = p & 7, take = Math.min(8 - off, w);
      v = (take == 32 ? 0 : v << take) | ((in(d[p >> 3]) >> (8 - off - take)) & ((1 << take) - 1));
      p += take;
      w -= take;
    }
    return v;
  }
  static int zeros(Value[] d, int p, int n) {
    int z = 0;
    while (p < n) {
      if ((p & 7) == 0 && p + 8 <= n && in(d[p >> 3]) == 0) { p += 8; z += 8; }
      else if (at(d, p) == 1) return z;
      else { p++; z++; }
    }
    return z;
  }
  public static Value Pow2(Value k) { return of(1 << in(k)); }
  public static Value BitAt(Value d, Value p) { return of(at(seq(d), in(p))); }
  public static Value ReadU(Value d, Value p, Value w) { return of(read(seq(d), in(p), in(w))); }
  public static Value ReadUE(Value dv, Value pv, Value nv) {
    Value[] d = seq(dv);
    int p = in(pv), n = in(nv), z = zeros(d, p, n);
    if (z > 31 || (long) p + 2L * z + 1 > n) return new TupleValue(new Value[]{of(false), of(0), of(0)});
    if (z == 0) return new TupleValue(new Value[]{of(true), of(0), of(1)});
    long v = (1L << z) - 1 + (read(d, p + z + 1, z) & 0xffffffffL);
    return new TupleValue(new Value[]{of(true), of((int) v), of(2 * z + 1)});
  }
  static boolean more(Value[] d, int p, int n) {
    if (p >= n) return false;
    if (n - p > 8) return true;
    if (at(d, p) != 1) return true;
    for (int q = p + 1; q < n; q++) if (at(d, q) != 0) return true;
    return false;
  }
  public static Value MoreData(Value d, Value p, Value n) { return of(more(seq(d), in(p), in(n))); }
  public static Value DataEnd(Value dv, Value pv, Value nv) {
    Value[] d = seq(dv);
    int p = in(pv), n = in(nv);
    if (p >= n || !more(d, p, n)) return of(p);
    p = Math.max(p, n - 8);
    while (more(d, p, n)) p++;
    return of(p);
  }
  public static Value TrailEnd(Value dv, Value pv, Value nv) {
    Value[] d = seq(dv);
    int p = in(pv), n = in(nv);
    if (p >= n) return of(p);
    if (at(d, p) == 0) return of(p + 1);
    p++;
    while (p % 8 != 0 && p < n) {
      if (at(d, p) == 1) return of(p + 1);
      p++;
    }
    return of(p);
  }
  public static Value Unescape(Value dv) {
    Value[] d = seq(dv);
    Value[] o = new Value[d.length];
    int k = 0;
    for (int i = 0; i < d.length; i++)
      if (!(i >= 2 && in(d[i]) == 3 && in(d[i - 1]) == 0 && in(d[i - 2]) == 0)) o[k++] = d[i];
    return new TupleValue(java.util.Arrays.copyOf(o, k));
  }
  public static Value Escape(Value dv) {
    Value[] d = seq(dv);
    Value[] o = new Value[2 * d.length];
    int k = 0, z = 0;
    for (Value b : d) {
      int v = in(b);
      if (z >= 2 && v <= 3) { o[k++] = of(3); o[k++] = b; z = v == 0 ? 1 : 0; }
      else { o[k++] = b; z = v == 0 ? z + 1 : 0; }
    }
    return new TupleValue(java.util.Arrays.copyOf(o, k));
  }
  static int bit(long v, int k) { return (int) ((v >> k) & 1); }
  public static Value TokBits(Value vv, Value wv) {
    int v = in(vv), w = in(wv);
    Value[] o = new Value[w];
    for (int i = 0; i < w; i++) o[i] = of(bit(v, w - 1 - i));
    return new TupleValue(o);
  }
  static Value ue(int v) {
    long x = (v & 0xffffffffL) + 1;
    int z = 63 - Long.numberOfLeadingZeros(x);
    Value[] o = new Value[2 * z + 1];
    for (int i = 0; i < z; i++) o[i] = of(0);
    for (int i = 0; i <= z; i++) o[z + i] = of(bit(x, z - i));
    return new TupleValue(o);
  }
  public static Value UEBits(Value u) { return ue(in(u)); }
  public static Value SEBits(Value s) {
    long v = in(s);
    return ue((int) (v > 0 ? 2 * v - 1 : -2 * v));
  }
  public static Value BitsToBytes(Value bv) {
    Value[] b = seq(bv);
    Value[] o = new Value[(b.length + 7) / 8];
    for (int k = 0; k < o.length; k++) {
      int v = 0;
      for (int i = 8 * k; i < 8 * k + 8; i++) v = 2 * v + (i < b.length ? in(b[i]) : 0);
      o[k] = of(v);
    }
    return new TupleValue(o);
  }
  public static Value Flatten(Value qv) {
    Value[] q = seq(qv);
    Value[][] e = new Value[q.length][];
    int n = 0;
    for (int i = 0; i < q.length; i++) { e[i] = seq(q[i]); n += e[i].length; }
    Value[] o = new Value[n];
    n = 0;
    for (Value[] x : e) { System.arraycopy(x, 0, o, n, x.length); n += x.length; }
    return new TupleValue(o);
  }
  public static Value Iota(Value n) {
    Value[] o = new Value[Math.max(0, in(n))];
    for (int i = 0; i < o.length; i++) o[i] = of(i + 1);
    return new TupleValue(o);
  }
  static int rnd(int r) {
    int v = 16807 * (r % 127773) - 2836 * (r / 127773);
    return v <= 0 ? v + 2147483647 : v;
  }
  public static Value Rnd(Value r) { return of(rnd(in(r))); }
  static int mix(int r) { return rnd(1 + (r % 40009) * (((r / 40009) % 40013) + 13)); }
  static int h(int r, int i) { return mix(rnd(mix((r % 1000000007) + i * 104729))); }
  public static Value H(Value r, Value i) { return of(h(in(r), in(i))); }
  public static Value RndBytes(Value rv, Value nv) {
    Value[] o = new Value[Math.max(0, in(nv))];
    for (int k = 0; k < o.length; k++) o[k] = of(h(in(rv), 2001 + k) % 256);
    return new TupleValue(o);
  }
}
