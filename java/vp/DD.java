package vp;

/** Double-double scalar arithmetic (about 31 decimal digits); immutable pairs hi+lo. */
final class DD {
  final double h, l;
  DD(double h, double l) { this.h = h; this.l = l; }
  DD(double h) { this(h, 0.0); }
  static final DD ZERO = new DD(0), ONE = new DD(1);

  static DD fast(double a, double b) {
    double s = a + b;
    if (Double.isNaN(s) || Double.isInfinite(s)) return new DD(s, 0);
    return new DD(s, b - (s - a));
  }
  DD add(DD o) {
    double s = h + o.h;
    if (Double.isNaN(s) || Double.isInfinite(s)) return new DD(s, 0);
    double bb = s - h;
    double e = (h - (s - bb)) + (o.h - bb);
    double t = l + o.l;
    double tb = t - l;
    double te = (l - (t - tb)) + (o.l - tb);
    e += t;
    double s2 = s + e;
    e = e - (s2 - s);
    e += te;
    return fast(s2, e);
  }
  DD neg() { return new DD(-h, -l); }
  DD sub(DD o) { return add(o.neg()); }
  DD mul(DD o) {
    double p = h * o.h;
    if (Double.isNaN(p) || Double.isInfinite(p)) return new DD(p, 0);
    double e = Math.fma(h, o.h, -p);
    e += h * o.l + l * o.h;
    return fast(p, e);
  }
  DD div(DD o) {
    double q1 = h / o.h;
    if (Double.isNaN(q1) || Double.isInfinite(q1)) return new DD(q1, 0);
    DD r = sub(o.mul(new DD(q1)));
    double q2 = r.h / o.h;
    r = r.sub(o.mul(new DD(q2)));
    double q3 = r.h / o.h;
    return fast(q1, q2).add(new DD(q3));
  }
  DD sqrt() {
    if (h == 0) return ZERO;
    if (h < 0 || Double.isNaN(h) || Double.isInfinite(h)) return new DD(Math.sqrt(h));
    double x = 1.0 / Math.sqrt(h);
    double ax = h * x;
    DD d = sub(new DD(ax).mul(new DD(ax)));
    return fast(ax, d.h * (x * 0.5));
  }
  int cmp(DD o) {
    if (h < o.h) return -1;
    if (h > o.h) return 1;
    return Double.compare(l + 0.0, o.l + 0.0);
  }
  DD abs() { return h < 0 || (h == 0 && l < 0) ? neg() : this; }
}
