package vp;

import com.google.gson.stream.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Linear-algebra primitives and the trace reader used by spec/Mat.tla. */
public final class Ov implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] {Ov.class}; }

  private static MatValue m(Value v) {
    if (v instanceof MatValue) return (MatValue) v;
    if (v instanceof IntValue) return MatValue.scalar(((IntValue) v).val);
    throw new RuntimeException("matrix expected, got " + v);
  }
  private static int n(Value v) { return ((IntValue) v).val; }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ---- construction -----------------------------------------------------------------------
  @TLAPlusOperator(identifier = "Num", module = "Mat", warn = false)
  public static Value num(Value i) { return m(i); }
  @TLAPlusOperator(identifier = "Rat", module = "Mat", warn = false)
  public static Value rat(Value i, Value j) { return MatValue.scalar(new DD(n(i)).div(new DD(n(j)))); }
  @TLAPlusOperator(identifier = "Lit", module = "Mat", warn = false)
  public static Value lit(Value s) { return MatValue.scalar(Double.parseDouble(((StringValue) s).val.toString())); }
  @TLAPlusOperator(identifier = "MId", module = "Mat", warn = false)
  public static Value id(Value k) { int d = n(k); MatValue x = new MatValue(d, d); for (int i = 0; i < d; i++) x.h[i * d + i] = 1; return x; }
  @TLAPlusOperator(identifier = "MZero", module = "Mat", warn = false)
  public static Value zero(Value r, Value c) { return new MatValue(n(r), n(c)); }
  @TLAPlusOperator(identifier = "MRound", module = "Mat", warn = false)
  public static Value round(Value a) { MatValue x = m(a), y = new MatValue(x.r, x.c); System.arraycopy(x.h, 0, y.h, 0, x.h.length); return y; }

  // ---- shape ------------------------------------------------------------------------------
  @TLAPlusOperator(identifier = "MRows", module = "Mat", warn = false)
  public static Value rows(Value a) { return IntValue.gen(m(a).r); }
  @TLAPlusOperator(identifier = "MCols", module = "Mat", warn = false)
  public static Value cols(Value a) { return IntValue.gen(m(a).c); }
  @TLAPlusOperator(identifier = "Blk", module = "Mat", warn = false)
  public static Value blk(Value a, Value i, Value j, Value h, Value w) {
    MatValue x = m(a); int i0 = n(i), j0 = n(j), r = n(h), c = n(w);
    if (i0 < 0 || j0 < 0 || r < 0 || c < 0 || i0 + r > x.r || j0 + c > x.c)
      throw new RuntimeException("Blk(" + i0 + "," + j0 + "," + r + "," + c + ") outside " + x.r + "x" + x.c);
    MatValue y = new MatValue(r, c);
    for (int p = 0; p < r; p++) for (int q = 0; q < c; q++) y.put(p, q, x.at(i0 + p, j0 + q));
    return y;
  }
  @TLAPlusOperator(identifier = "SetBlk", module = "Mat", warn = false)
  public static Value setblk(Value a, Value i, Value j, Value bb) {
    MatValue x = m(a), s = m(bb), y = new MatValue(x.r, x.c); int i0 = n(i), j0 = n(j);
    if (i0 < 0 || j0 < 0 || i0 + s.r > x.r || j0 + s.c > x.c)
      throw new RuntimeException("SetBlk(" + i0 + "," + j0 + ") of " + s.r + "x" + s.c + " outside " + x.r + "x" + x.c);
    System.arraycopy(x.h, 0, y.h, 0, x.h.length); System.arraycopy(x.l, 0, y.l, 0, x.l.length);
    for (int p = 0; p < s.r; p++) for (int q = 0; q < s.c; q++) y.put(i0 + p, j0 + q, s.at(p, q));
    return y;
  }
  @TLAPlusOperator(identifier = "HCat", module = "Mat", warn = false)
  public static Value hcat(Value a, Value bb) {
    MatValue x = m(a), y = m(bb);
    if (x.r != y.r) throw new RuntimeException("HCat rows");
    MatValue z = new MatValue(x.r, x.c + y.c);
    for (int i = 0; i < x.r; i++) { for (int j = 0; j < x.c; j++) z.put(i, j, x.at(i, j)); for (int j = 0; j < y.c; j++) z.put(i, x.c + j, y.at(i, j)); }
    return z;
  }
  @TLAPlusOperator(identifier = "VCat", module = "Mat", warn = false)
  public static Value vcat(Value a, Value bb) {
    MatValue x = m(a), y = m(bb);
    if (x.c != y.c) throw new RuntimeException("VCat cols");
    MatValue z = new MatValue(x.r + y.r, x.c);
    for (int j = 0; j < x.c; j++) { for (int i = 0; i < x.r; i++) z.put(i, j, x.at(i, j)); for (int i = 0; i < y.r; i++) z.put(x.r + i, j, y.at(i, j)); }
    return z;
  }
  /** Removes k rows and columns starting at index i. */
  @TLAPlusOperator(identifier = "Drop", module = "Mat", warn = false)
  public static Value drop(Value a, Value i, Value k) {
    MatValue x = m(a); int i0 = n(i), d = n(k);
    MatValue y = new MatValue(x.r - d, x.c - d);
    for (int p = 0; p < y.r; p++) for (int q = 0; q < y.c; q++) y.put(p, q, x.at(p < i0 ? p : p + d, q < i0 ? q : q + d));
    return y;
  }

  // ---- arithmetic -------------------------------------------------------------------------
  private static MatValue lin(MatValue x, MatValue y, boolean sub) {
    if (x.r != y.r || x.c != y.c) throw new RuntimeException("shape mismatch " + x.r + "x" + x.c + " vs " + y.r + "x" + y.c);
    MatValue z = new MatValue(x.r, x.c);
    for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) z.put(i, j, sub ? x.at(i, j).sub(y.at(i, j)) : x.at(i, j).add(y.at(i, j)));
    return z;
  }
  private static MatValue scale(DD s, MatValue x) {
    MatValue z = new MatValue(x.r, x.c);
    for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) z.put(i, j, s.mul(x.at(i, j)));
    return z;
  }
  private static MatValue mmul(MatValue x, MatValue y) {
    if (x.r == 1 && x.c == 1 && !(y.r == 1)) return scale(x.at(0, 0), y);
    if (y.r == 1 && y.c == 1 && !(x.c == 1)) return scale(y.at(0, 0), x);
    if (x.c != y.r) throw new RuntimeException("product of " + x.r + "x" + x.c + " and " + y.r + "x" + y.c);
    MatValue z = new MatValue(x.r, y.c);
    for (int i = 0; i < x.r; i++)
      for (int j = 0; j < y.c; j++) {
        DD s = DD.ZERO;
        for (int k = 0; k < x.c; k++) {
          double xa = x.h[i * x.c + k], ya = y.h[k * y.c + j];
          if ((xa == 0 && ya - ya == 0) || (ya == 0 && xa - xa == 0)) continue;
          s = s.add(x.at(i, k).mul(y.at(k, j)));
        }
        z.put(i, j, s);
      }
    return z;
  }
  @TLAPlusOperator(identifier = "MAdd", module = "Mat", warn = false)
  public static Value add(Value a, Value bb) { return lin(m(a), m(bb), false); }
  @TLAPlusOperator(identifier = "MSub", module = "Mat", warn = false)
  public static Value sub(Value a, Value bb) { return lin(m(a), m(bb), true); }
  @TLAPlusOperator(identifier = "MMul", module = "Mat", warn = false)
  public static Value mul(Value a, Value bb) { return mmul(m(a), m(bb)); }
  @TLAPlusOperator(identifier = "MDiv", module = "Mat", warn = false)
  public static Value div(Value a, Value s) { MatValue x = m(a); DD d = m(s).at(0, 0); MatValue z = new MatValue(x.r, x.c);
    for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) z.put(i, j, x.at(i, j).div(d)); return z; }
  @TLAPlusOperator(identifier = "MNeg", module = "Mat", warn = false)
  public static Value neg(Value a) { MatValue x = m(a), z = new MatValue(x.r, x.c); for (int i = 0; i < x.h.length; i++) { z.h[i] = -x.h[i]; z.l[i] = -x.l[i]; } return z; }
  @TLAPlusOperator(identifier = "MT", module = "Mat", warn = false)
  public static Value tr(Value a) { MatValue x = m(a), z = new MatValue(x.c, x.r); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) z.put(j, i, x.at(i, j)); return z; }
  @TLAPlusOperator(identifier = "MSqrt", module = "Mat", warn = false)
  public static Value sqrt(Value a) { return MatValue.scalar(m(a).at(0, 0).sqrt()); }
  @TLAPlusOperator(identifier = "MFloor", module = "Mat", warn = false)
  public static Value floor(Value a) { return IntValue.gen((int) Math.floor(m(a).h[0])); }

  @TLAPlusOperator(identifier = "MInv", module = "Mat", warn = false)
  public static Value inv(Value a) {
    MatValue x = m(a); int d = x.r;
    if (x.c != d) throw new RuntimeException("MInv of a non-square matrix");
    DD[][] w = new DD[d][2 * d];
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { w[i][j] = x.at(i, j); w[i][d + j] = i == j ? DD.ONE : DD.ZERO; }
    for (int k = 0; k < d; k++) {
      int p = k;
      for (int i = k + 1; i < d; i++) if (w[i][k].abs().cmp(w[p][k].abs()) > 0) p = i;
      DD[] t = w[k]; w[k] = w[p]; w[p] = t;
      if (w[k][k].h == 0) { MatValue z = new MatValue(d, d); Arrays.fill(z.h, Double.NaN); return z; }   // singular: no number
      DD q = DD.ONE.div(w[k][k]);
      for (int j = 0; j < 2 * d; j++) w[k][j] = w[k][j].mul(q);
      for (int i = 0; i < d; i++) if (i != k && w[i][k].h != 0) {
        DD f = w[i][k];
        for (int j = 0; j < 2 * d; j++) w[i][j] = w[i][j].sub(f.mul(w[k][j]));
      }
    }
    MatValue z = new MatValue(d, d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) z.put(i, j, w[i][d + j]);
    return z;
  }

  private static double normInf(MatValue x) {
    double best = 0;
    for (int i = 0; i < x.r; i++) { double s = 0; for (int j = 0; j < x.c; j++) s += Math.abs(x.h[i * x.c + j]); best = Math.max(best, s); }
    return best;
  }
  /** Matrix exponential: scaling and squaring of the Taylor series, in double-double. */
  @TLAPlusOperator(identifier = "MExp", module = "Mat", warn = false)
  public static Value exp(Value a) {
    MatValue x = m(a); int d = x.r;
    double nn = normInf(x);
    if (!(nn < 1e7)) { MatValue z = new MatValue(d, d); Arrays.fill(z.h, Double.NaN); return z; }
    int s = 0;
    while (nn > 0.25) { nn /= 2; s++; }
    x = scale(new DD(Math.scalb(1.0, -s)), x);
    MatValue sum = (MatValue) id(IntValue.gen(d)), term = sum;
    for (int k = 1; k <= 26; k++) {
      term = mmul(term, x);
      if (d > 1 || true) { DD q = DD.ONE.div(new DD(k)); MatValue t = new MatValue(d, d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) t.put(i, j, term.at(i, j).mul(q)); term = t; }
      sum = lin(sum, term, false);
      if (normInf(term) == 0) break;
    }
    for (int k = 0; k < s; k++) sum = mmul(sum, sum);
    return sum;
  }
  /** sum_{k>=0} A^k / (k+p)!  */
  @TLAPlusOperator(identifier = "MPhi", module = "Mat", warn = false)
  public static Value phi(Value a, Value pp) {
    MatValue x = m(a); int d = x.r, p = n(pp);
    if (p == 0) return exp(x);
    // exp([[A, I, 0..],[0,0,I..],..]) has the phi-functions in its first block row
    int big = d * (p + 1);
    MatValue w = new MatValue(big, big);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) w.put(i, j, x.at(i, j));
    for (int k = 0; k < p; k++) for (int i = 0; i < d; i++) w.h[(k * d + i) * big + (k + 1) * d + i] = 1;
    MatValue e = (MatValue) exp(w);
    MatValue z = new MatValue(d, d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) z.put(i, j, e.at(i, p * d + j));
    return z;
  }

  // ---- predicates and measures ------------------------------------------------------------
  @TLAPlusOperator(identifier = "MLt", module = "Mat", warn = false)
  public static Value lt(Value a, Value bb) { DD x = m(a).at(0, 0), y = m(bb).at(0, 0); return b(!Double.isNaN(x.h) && !Double.isNaN(y.h) && x.cmp(y) < 0); }
  @TLAPlusOperator(identifier = "MLe", module = "Mat", warn = false)
  public static Value le(Value a, Value bb) { DD x = m(a).at(0, 0), y = m(bb).at(0, 0); return b(!Double.isNaN(x.h) && !Double.isNaN(y.h) && x.cmp(y) <= 0); }
  @TLAPlusOperator(identifier = "MSame", module = "Mat", warn = false)
  public static Value same(Value a, Value bb) { return b(m(a).same(m(bb))); }
  @TLAPlusOperator(identifier = "MFinite", module = "Mat", warn = false)
  public static Value finite(Value a) { for (double d : m(a).h) if (!(Math.abs(d) < Double.POSITIVE_INFINITY)) return b(false); return b(true); }
  @TLAPlusOperator(identifier = "MAbs", module = "Mat", warn = false)
  public static Value abs(Value a) { MatValue x = m(a), z = new MatValue(x.r, x.c); for (int i = 0; i < x.h.length; i++) { z.h[i] = Math.abs(x.h[i]); } return z; }
  @TLAPlusOperator(identifier = "MMax", module = "Mat", warn = false)
  public static Value max(Value a) { double z = 0; for (double d : m(a).h) { if (Double.isNaN(d)) return MatValue.scalar(Double.NaN); z = Math.max(z, Math.abs(d)); } return MatValue.scalar(z); }
  /** |A-B| <= 10^-e * max(scale, |B|max) for every entry, and equal shapes. */
  @TLAPlusOperator(identifier = "MClose", module = "Mat", warn = false)
  public static Value close(Value a, Value bb, Value e, Value s) {
    MatValue x = m(a), y = m(bb);
    if (x.r != y.r || x.c != y.c) return b(false);
    double sc = Math.abs(m(s).h[0]);
    for (double d : y.h) sc = Math.max(sc, Math.abs(d));
    double tol = Math.pow(10, -n(e)) * sc;
    for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) {
      DD d = x.at(i, j).sub(y.at(i, j)).abs();
      if (!(d.h <= tol)) return b(false);
    }
    return b(true);
  }
  /** Covariance comparison: |A-B|ij <= 10^-e * sqrt(|Bii Bjj|) + 10^-f * max|B| + abs. */
  @TLAPlusOperator(identifier = "MCloseCov", module = "Mat", warn = false)
  public static Value closecov(Value a, Value bb, Value e, Value f, Value abs) {
    MatValue x = m(a), y = m(bb);
    if (x.r != y.r || x.c != y.c) return b(false);
    double mx = 0;
    for (double d : y.h) mx = Math.max(mx, Math.abs(d));
    double t1 = Math.pow(10, -n(e)), t2 = Math.pow(10, -n(f)) * mx + Math.abs(m(abs).h[0]);
    for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) {
      double d = x.at(i, j).sub(y.at(i, j)).abs().h;
      double sc = Math.sqrt(Math.abs(y.h[i * y.c + i] * y.h[j * y.c + j]));
      if (!(d <= t1 * sc + t2)) return b(false);
    }
    return b(true);
  }
  /** Largest entrywise distance, for reports. */
  @TLAPlusOperator(identifier = "MDist", module = "Mat", warn = false)
  public static Value dist(Value a, Value bb) {
    MatValue x = m(a), y = m(bb);
    if (x.r != y.r || x.c != y.c) return MatValue.scalar(Double.POSITIVE_INFINITY);
    double z = 0;
    for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) { double d = x.at(i, j).sub(y.at(i, j)).abs().h; if (Double.isNaN(d)) return MatValue.scalar(d); z = Math.max(z, d); }
    return MatValue.scalar(z);
  }
  /** Smallest eigenvalue of (A+A')/2 by cyclic Jacobi. */
  @TLAPlusOperator(identifier = "MMinEig", module = "Mat", warn = false)
  public static Value mineig(Value a) {
    MatValue x = m(a); int d = x.r;
    double[][] w = new double[d][d];
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { w[i][j] = (x.h[i * d + j] + x.h[j * d + i]) / 2; if (!(Math.abs(w[i][j]) < 1e300)) return MatValue.scalar(Double.NaN); }
    for (int sweep = 0; sweep < 60; sweep++) {
      double off = 0, dia = 0;
      for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) if (i != j) off += w[i][j] * w[i][j]; else dia += w[i][i] * w[i][i];
      if (off <= 1e-34 * dia || off == 0) break;
      for (int p = 0; p < d; p++) for (int q = p + 1; q < d; q++) {
        if (w[p][q] == 0) continue;
        double th = (w[q][q] - w[p][p]) / (2 * w[p][q]);
        double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1));
        if (Double.isInfinite(th)) t = 0;
        double c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < d; k++) { double u = w[k][p], v = w[k][q]; w[k][p] = c * u - s * v; w[k][q] = s * u + c * v; }
        for (int k = 0; k < d; k++) { double u = w[p][k], v = w[q][k]; w[p][k] = c * u - s * v; w[q][k] = s * u + c * v; }
      }
    }
    double z = Double.POSITIVE_INFINITY;
    for (int i = 0; i < d; i++) z = Math.min(z, w[i][i]);
    return MatValue.scalar(z);
  }

  // ---- trace reader -----------------------------------------------------------------------
  private static final Map<String, Value> cache = new HashMap<>();

  /** The trace file as a sequence of traces, each a sequence of event records. */
  @TLAPlusOperator(identifier = "ReadTraces", module = "Mat", warn = false)
  public static synchronized Value read(Value path) throws IOException {
    String p = ((StringValue) path).val.toString();
    Value v = cache.get(p);
    if (v != null) return v;
    List<Value> traces = new ArrayList<>();
    List<Value> cur = null;
    try (BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(p), StandardCharsets.UTF_8), 1 << 20)) {
      String line;
      while ((line = in.readLine()) != null) {
        if (line.isEmpty()) continue;
        JsonReader jr = new JsonReader(new StringReader(line));
        jr.setLenient(true);
        Value ev = json(jr);
        if (line.startsWith("{\"e\":\"begin\"")) {
          if (cur != null) traces.add(new TupleValue(cur.toArray(new Value[0])));
          cur = new ArrayList<>();
        }
        if (cur != null) cur.add(ev);
      }
    }
    if (cur != null) traces.add(new TupleValue(cur.toArray(new Value[0])));
    v = new TupleValue(traces.toArray(new Value[0]));
    v.deepNormalize();
    cache.put(p, v);
    return v;
  }
  private static Value json(JsonReader r) throws IOException {
    switch (r.peek()) {
      case BEGIN_OBJECT: {
        r.beginObject();
        List<UniqueString> names = new ArrayList<>();
        List<Value> vals = new ArrayList<>();
        while (r.hasNext()) { names.add(UniqueString.uniqueStringOf(r.nextName())); vals.add(json(r)); }
        r.endObject();
        return new RecordValue(names.toArray(new UniqueString[0]), vals.toArray(new Value[0]), false);
      }
      case BEGIN_ARRAY: {
        r.beginArray();
        List<Value> vals = new ArrayList<>();
        while (r.hasNext()) vals.add(json(r));
        r.endArray();
        return new TupleValue(vals.toArray(new Value[0]));
      }
      case BOOLEAN: return b(r.nextBoolean());
      case NUMBER: return IntValue.gen(Integer.parseInt(r.nextString()));
      case STRING: {
        String s = r.nextString();
        if (s.startsWith("~")) return mat(s);
        return new StringValue(s);
      }
      default: throw new IOException("unexpected JSON at " + r.getPath());
    }
  }
  /** "~RxC:" then 16 hex digits per entry, row by row; "~1" style shorthand "~:hex" is a scalar. */
  private static MatValue mat(String s) {
    int k = s.indexOf(':');
    int r = 1, c = 1;
    if (k > 1) { int x = s.indexOf('x'); r = Integer.parseInt(s.substring(1, x)); c = Integer.parseInt(s.substring(x + 1, k)); }
    MatValue z = new MatValue(r, c);
    int pos = k + 1;
    for (int i = 0; i < r * c; i++) {
      if (s.charAt(pos) == '.') { pos++; continue; }   // '.' abbreviates +0.0
      z.h[i] = Double.longBitsToDouble(Long.parseUnsignedLong(s, pos, pos + 16, 16)); pos += 16;
    }
    if (pos != s.length()) throw new RuntimeException("bad matrix literal");
    return z;
  }
}
