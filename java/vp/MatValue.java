package vp;

import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.Assert;

/** A real matrix (double-double entries) as a first-class TLC value; a scalar is a 1x1 matrix. */
public final class MatValue extends Value {
  public final int r, c;
  public final double[] h, l;

  public MatValue(int r, int c) { this.r = r; this.c = c; h = new double[r * c]; l = new double[r * c]; }

  DD at(int i, int j) { return new DD(h[i * c + j], l[i * c + j]); }
  void put(int i, int j, DD d) { h[i * c + j] = d.h; l[i * c + j] = d.l; }
  static MatValue scalar(double d) { MatValue m = new MatValue(1, 1); m.h[0] = d; return m; }
  static MatValue scalar(DD d) { MatValue m = new MatValue(1, 1); m.put(0, 0, d); return m; }

  @Override public byte getKind() { return (byte) 77; }
  @Override public String getKindString() { return "a matrix"; }
  @Override public String getTypeString() { return "Mat"; }
  @Override public boolean member(Value v) { throw new RuntimeException("matrix is not a set"); }
  @Override public boolean isFinite() { throw new RuntimeException("matrix is not a set"); }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a matrix"); return ex.value; }
  @Override public Value takeExcept(ValueExcept[] ex) { throw new RuntimeException("EXCEPT on a matrix"); }
  @Override public int size() { return r * c; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  public boolean assignable(Value v) { return v instanceof MatValue; }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public boolean mutates() { return false; }
  @Override public IValue initialize() { return this; }

  boolean same(MatValue o) {
    if (r != o.r || c != o.c) return false;
    for (int i = 0; i < h.length; i++) {
      if (!(h[i] == o.h[i] || (Double.isNaN(h[i]) && Double.isNaN(o.h[i])))) return false;
      if (l[i] != o.l[i]) return false;
    }
    return true;
  }
  @Override public boolean equals(Object o) { return o instanceof MatValue && same((MatValue) o); }
  @Override public int compareTo(Object o) {
    if (!(o instanceof MatValue)) return -1;
    MatValue m = (MatValue) o;
    if (r != m.r) return r < m.r ? -1 : 1;
    if (c != m.c) return c < m.c ? -1 : 1;
    for (int i = 0; i < h.length; i++) {
      if (h[i] == m.h[i] && l[i] == m.l[i]) continue;
      int k = Double.compare(h[i] + 0.0, m.h[i] + 0.0);
      if (k != 0) return k;
      k = Double.compare(l[i] + 0.0, m.l[i] + 0.0);
      if (k != 0) return k;
    }
    return 0;
  }
  @Override public long fingerPrint(long fp) {
    fp = tlc2.util.FP64.Extend(fp, r * 1000 + c);
    for (int i = 0; i < h.length; i++) {
      fp = tlc2.util.FP64.Extend(fp, Double.doubleToLongBits(h[i] + 0.0));
      fp = tlc2.util.FP64.Extend(fp, Double.doubleToLongBits(l[i] + 0.0));
    }
    return fp;
  }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    if (r == 1 && c == 1) return sb.append("\"").append(h[0]).append("\"");
    sb.append("\"");
    for (int i = 0; i < r; i++) {
      if (i > 0) sb.append("; ");
      for (int j = 0; j < c; j++) { if (j > 0) sb.append(' '); sb.append(String.format("%.9g", h[i * c + j])); }
    }
    return sb.append("\"");
  }
}
