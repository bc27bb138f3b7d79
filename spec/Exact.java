import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluates the operators of Exact.tla with unbounded integers (see ExactRef.tla for their meaning). */
public class Exact {
  private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static long[] pt(Value v) { Value[] e = seq(v); return new long[]{((IntValue) e[0]).val, ((IntValue) e[1]).val}; }
  private static long[][] ring(Value v) { Value[] e = seq(v); long[][] r = new long[e.length][]; for (int i = 0; i < e.length; i++) r[i] = pt(e[i]); return r; }
  private static long[][][] rings(Value v) { Value[] e = seq(v); long[][][] r = new long[e.length][][]; for (int i = 0; i < e.length; i++) r[i] = ring(e[i]); return r; }
  private static int in(Value v) { return ((IntValue) v).val; }
  private static BigInteger b(long x) { return BigInteger.valueOf(x); }
  private static Value B(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value I(int x) { return IntValue.gen(x); }

  private static long span(long[] a, long[] c) { return Math.max(Math.abs(a[0] - c[0]), Math.abs(a[1] - c[1])); }
  private static BigInteger cross(long[] a, long[] c, long[] d) {
    return b(c[0] - a[0]).multiply(b(d[1] - a[1])).subtract(b(c[1] - a[1]).multiply(b(d[0] - a[0])));
  }
  private static BigInteger dot(long[] o, long[] a, long[] c) {
    return b(a[0] - o[0]).multiply(b(c[0] - o[0])).add(b(a[1] - o[1]).multiply(b(c[1] - o[1])));
  }
  private static BigInteger d2(long[] a, long[] c) { return dot(a, c, c); }
  private static int orient(long[] a, long[] c, long[] d) { return cross(a, c, d).signum(); }
  private static int orientT(long[] a, long[] c, long[] d, long t) {
    BigInteger x = cross(a, c, d);
    return x.abs().compareTo(b(t).multiply(b(span(a, c)))) <= 0 ? 0 : x.signum();
  }
  private static boolean onSeg(long[] a, long[] c, long[] v, long t) {
    return v[0] >= Math.min(a[0], c[0]) - t && v[0] <= Math.max(a[0], c[0]) + t
        && v[1] >= Math.min(a[1], c[1]) - t && v[1] <= Math.max(a[1], c[1]) + t
        && cross(a, c, v).abs().compareTo(b(t).multiply(b(Math.max(span(a, c), 1)))) <= 0;
  }
  private static BigInteger area2(long[][] r) {
    BigInteger s = BigInteger.ZERO;
    for (int i = 0; i < r.length; i++) {
      long[] a = r[i], c = r[(i + 1) % r.length];
      s = s.add(b(a[0]).multiply(b(c[1]))).subtract(b(a[1]).multiply(b(c[0])));
    }
    return s;
  }
  private static BigInteger wide(Value v) {
    Value[] e = seq(v);
    BigInteger base = b(1073741824L);
    return b(in(e[1])).multiply(base).add(b(in(e[2]))).multiply(base).add(b(in(e[3]))).multiply(b(in(e[0])));
  }

  private static int at(Value v, int i) { return ((IntValue) seq(v)[i]).val; }
  public static Value Close(Value a, Value c, Value t) {
    return B(Math.abs((long) at(a, 0) - at(c, 0)) <= in(t) && Math.abs((long) at(a, 1) - at(c, 1)) <= in(t));
  }
  public static Value Orient(Value a, Value c, Value d) { return I(orient(pt(a), pt(c), pt(d))); }
  public static Value OrientT(Value a, Value c, Value d, Value t) { return I(orientT(pt(a), pt(c), pt(d), in(t))); }
  public static Value OnSeg(Value a, Value c, Value v, Value t) { return B(onSeg(pt(a), pt(c), pt(v), in(t))); }
  public static Value InsideCircle(Value va, Value vb, Value vc, Value vd, Value t) {
    long[] a = pt(va), c = pt(vb), e = pt(vc), d = pt(vd);
    BigInteger ax = b(a[0] - d[0]), ay = b(a[1] - d[1]), bx = b(c[0] - d[0]), by = b(c[1] - d[1]), cx = b(e[0] - d[0]), cy = b(e[1] - d[1]);
    BigInteger as = ax.multiply(ax).add(ay.multiply(ay)), bs = bx.multiply(bx).add(by.multiply(by)), cs = cx.multiply(cx).add(cy.multiply(cy));
    BigInteger det = as.multiply(bx.multiply(cy).subtract(by.multiply(cx))).subtract(bs.multiply(ax.multiply(cy).subtract(ay.multiply(cx))))
        .add(cs.multiply(ax.multiply(by).subtract(ay.multiply(bx))));
    long s = Math.max(Math.max(Math.max(span(a, d), span(c, d)), span(e, d)), Math.max(Math.max(span(a, c), span(c, e)), span(a, e)));
    return B(det.multiply(b(orient(a, c, e))).compareTo(b(in(t)).multiply(b(s).pow(3))) > 0);
  }
  public static Value Obtuse(Value va, Value vo, Value vb, Value t) {
    long[] a = pt(va), o = pt(vo), c = pt(vb);
    return B(dot(o, a, c).compareTo(b(in(t)).multiply(b(span(o, a) + span(o, c))).negate()) < 0);
  }
  public static Value Nearer(Value vv, Value vs, Value vo, Value t) {
    long[] v = pt(vv), s = pt(vs), o = pt(vo);
    return B(d2(v, s).subtract(d2(v, o)).compareTo(b(2L * in(t)).multiply(b(span(v, s) + span(v, o)))) > 0);
  }
  public static Value Area2Sign(Value r) { return I(area2(ring(r)).signum()); }
  public static Value SameArea(Value as, Value bs, Value t) {
    BigInteger s = BigInteger.ZERO, per = BigInteger.ZERO;
    int k = 1;
    for (long[][][] f : new long[][][][]{rings(as), rings(bs)}) {
      for (long[][] r : f) {
        s = s.add(area2(r).multiply(b(k)));
        for (int i = 0; i < r.length; i++) per = per.add(b(span(r[i], r[(i + 1) % r.length])));
      }
      k = -1;
    }
    return B(s.abs().compareTo(per.multiply(b(in(t)))) <= 0);
  }
  public static Value Area2Is(Value r, Value w, Value t) {
    if (in(seq(w)[0]) == 9) return B(false);
    return B(wide(w).subtract(area2(ring(r))).abs().compareTo(b(in(t))) <= 0);
  }
  public static Value DistIs(Value va, Value vb, Value w, Value k, Value t) {
    if (in(seq(w)[0]) == 9) return B(false);
    BigInteger x = wide(w), tt = b(in(t));
    if (x.compareTo(tt.negate()) < 0) return B(false);
    BigInteger d = d2(pt(va), pt(vb)).multiply(b(in(k)).pow(2));
    BigInteger lo = x.subtract(tt).max(BigInteger.ZERO), hi = x.add(tt);
    return B(lo.multiply(lo).compareTo(d) <= 0 && d.compareTo(hi.multiply(hi)) <= 0);
  }
  public static Value CentroidIs(Value vr, Value vc, Value t) {
    long[][] r = ring(vr);
    long[] c = pt(vc);
    BigInteger A = area2(r), sx = BigInteger.ZERO, sy = BigInteger.ZERO;
    if (A.signum() == 0) return B(false);
    for (int i = 0; i < r.length; i++) {
      long[] p = r[i], q = r[(i + 1) % r.length];
      BigInteger w = b(p[0]).multiply(b(q[1])).subtract(b(p[1]).multiply(b(q[0])));
      sx = sx.add(w.multiply(b(p[0] + q[0])));
      sy = sy.add(w.multiply(b(p[1] + q[1])));
    }
    BigInteger A3 = A.multiply(b(3)), lim = A3.abs().multiply(b(in(t)));
    return B(A3.multiply(b(c[0])).subtract(sx).abs().compareTo(lim) <= 0 && A3.multiply(b(c[1])).subtract(sy).abs().compareTo(lim) <= 0);
  }
  public static Value Crossing(Value va, Value vb, Value vc, Value vd, Value vt) {
    long[] a = pt(va), c = pt(vb), e = pt(vc), d = pt(vd);
    long t = in(vt);
    return B(orientT(a, c, e, t) * orientT(a, c, d, t) < 0 && orientT(e, d, a, t) * orientT(e, d, c, t) < 0);
  }
  public static Value Touching(Value va, Value vb, Value vc, Value vd, Value vt) {
    long[] a = pt(va), c = pt(vb), e = pt(vc), d = pt(vd);
    long t = in(vt);
    return B(onSeg(a, c, e, t) || onSeg(a, c, d, t) || onSeg(e, d, a, t) || onSeg(e, d, c, t)
        || orient(a, c, e) * orient(a, c, d) < 0 && orient(e, d, a) * orient(e, d, c) < 0);
  }
  public static Value IsCommonPoint(Value va, Value vb, Value vc, Value vd, Value vv, Value t) {
    long[] a = pt(va), q = pt(vb), c = pt(vc), d = pt(vd), v = pt(vv);
    BigInteger den = b(q[0] - a[0]).multiply(b(d[1] - c[1])).subtract(b(q[1] - a[1]).multiply(b(d[0] - c[0])));
    BigInteger num = b(c[0] - a[0]).multiply(b(d[1] - c[1])).subtract(b(c[1] - a[1]).multiply(b(d[0] - c[0])));
    if (den.signum() == 0) return B(false);
    BigInteger lim = den.abs().multiply(b(in(t)));
    return B(b(v[0] - a[0]).multiply(den).subtract(num.multiply(b(q[0] - a[0]))).abs().compareTo(lim) <= 0
        && b(v[1] - a[1]).multiply(den).subtract(num.multiply(b(q[1] - a[1]))).abs().compareTo(lim) <= 0);
  }
  private static long floorDiv(BigInteger n, BigInteger d) {
    BigInteger[] q = n.divideAndRemainder(d);
    return (q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0]).longValueExact();
  }
  public static Value CrossPoint(Value va, Value vb, Value vc, Value vd) {
    long[] a = pt(va), q = pt(vb), c = pt(vc), d = pt(vd);
    BigInteger den = b(q[0] - a[0]).multiply(b(d[1] - c[1])).subtract(b(q[1] - a[1]).multiply(b(d[0] - c[0])));
    BigInteger num = b(c[0] - a[0]).multiply(b(d[1] - c[1])).subtract(b(c[1] - a[1]).multiply(b(d[0] - c[0])));
    if (den.signum() < 0) { den = den.negate(); num = num.negate(); }
    return new TupleValue(new Value[]{
        I((int) (a[0] + floorDiv(num.multiply(b(q[0] - a[0])), den))), I((int) (a[1] + floorDiv(num.multiply(b(q[1] - a[1])), den)))});
  }
  public static Value InsideRing(Value vr, Value vv) {
    long[][] r = ring(vr);
    long[] v = pt(vv);
    boolean odd = false;
    for (int i = 0; i < r.length; i++) {
      long[] a = r[i], c = r[(i + 1) % r.length];
      if (a[1] <= v[1] && c[1] > v[1] && orient(a, c, v) > 0 || c[1] <= v[1] && a[1] > v[1] && orient(a, c, v) < 0) odd = !odd;
    }
    return B(odd);
  }
  public static Value OnRing(Value vr, Value vv, Value t) {
    long[][] r = ring(vr);
    long[] v = pt(vv);
    for (int i = 0; i < r.length; i++) if (onSeg(r[i], r[(i + 1) % r.length], v, in(t))) return B(true);
    return B(false);
  }
  public static Value Before(Value vc, Value vd, Value va, Value vb, Value t) {
    long[] c = pt(vc), d = pt(vd), a = pt(va), q = pt(vb);
    BigInteger x = b(q[0] - a[0]).multiply(b(d[0] - c[0])).add(b(q[1] - a[1]).multiply(b(d[1] - c[1])));
    return B(x.compareTo(b(in(t)).multiply(b(span(c, d)))) > 0);
  }

  private static Value rounded(double x) {
    long n = Math.round(x);
    return I(Math.abs(n) < 2000000000L ? (int) n : 2000000001);
  }
  private static Value rounded(BigInteger n) { return I(n.abs().bitLength() < 31 ? n.intValue() : 2000000001); }
  public static Value MulDiv(Value a, Value c, Value d) { return rounded(floorDiv(b(in(a)).multiply(b(in(c))), b(in(d)))); }
  public static Value Scale(Value x, Value n, Value e) {
    BigInteger v = b(in(x)).multiply(b(in(n)));
    return rounded(in(e) >= 0 ? v.shiftRight(in(e)) : v.shiftLeft(-in(e)));
  }
  public static Value Turn(Value a, Value num, Value den) {
    long d = in(den), n = Math.floorMod((long) in(num), d);
    return rounded(in(a) * Math.sin(2 * Math.PI * n / d));
  }
  // a sin(pi n x / 2^e + ph / 64 degrees): the angle is reduced exactly before it is rounded
  public static Value Wave(Value a, Value n, Value x, Value e, Value ph) {
    BigInteger den = BigInteger.ONE.shiftLeft(in(e)).multiply(b(360 * 64));
    BigInteger num = b(in(n)).multiply(b(in(x))).multiply(b(180 * 64)).add(b(in(ph)).shiftLeft(in(e))).mod(den);
    double f = new java.math.BigDecimal(num).divide(new java.math.BigDecimal(den), java.math.MathContext.DECIMAL64).doubleValue();
    return rounded(in(a) * Math.sin(2 * Math.PI * f));
  }
  public static Value DistCmp(Value a, Value c, Value d, Value e) { return I(d2(pt(a), pt(c)).compareTo(d2(pt(d), pt(e)))); }
  public static Value MeanIs(Value r, Value c, Value t) {
    long[][] q = ring(r);
    long[] v = pt(c);
    for (int k = 0; k < 2; k++) {
      BigInteger s = b(v[k]).multiply(b(q.length));
      for (long[] z : q) s = s.subtract(b(z[k]));
      if (s.abs().compareTo(b(in(t)).multiply(b(q.length))) > 0) return B(false);
    }
    return B(true);
  }
  // |d / 10^k - x / 2^60| <= 10^-k / 2 + 2^-60
  public static Value DecimalIs(Value d, Value k, Value x) {
    if (in(seq(d)[0]) == 9 || in(seq(x)[0]) == 9) return B(false);
    BigInteger ten = BigInteger.TEN.pow(in(k)), one = BigInteger.ONE.shiftLeft(60);
    return B(wide(d).multiply(one).subtract(wide(x).multiply(ten)).abs().compareTo(one.shiftRight(1).add(ten)) <= 0);
  }
  public static Value DecimalNear(Value d, Value k, Value x, Value s) {
    if (in(seq(d)[0]) == 9 || in(seq(x)[0]) == 9) return B(false);
    BigInteger ten = BigInteger.TEN.pow(in(k));
    BigInteger off = wide(d).shiftLeft(60).subtract(wide(x).multiply(ten)).abs();
    return B(off.shiftLeft(1).multiply(BigInteger.TEN.pow(in(s) - 1)).compareTo(wide(x).abs().multiply(ten)) <= 0);
  }
}
