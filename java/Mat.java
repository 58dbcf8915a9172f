import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.Assert;
import util.UniqueString;

/** TLC overrides for the operators of module Mat (same names, same meaning). */
public final class Mat {
  static final UniqueString R = UniqueString.uniqueStringOf("r"), C = UniqueString.uniqueStringOf("c"),
      E = UniqueString.uniqueStringOf("e");
  private static final UniqueString[] NAMES = {R, C, E};

  final int r, c;
  final NumValue[][] e;

  Mat(int r, int c) {
    this.r = r;
    this.c = c;
    this.e = new NumValue[r][c];
    for (NumValue[] row : e) {
      java.util.Arrays.fill(row, NumValue.ZERO);
    }
  }

  static Value field(Value v, UniqueString f) {
    RecordValue rec = (RecordValue) v.toRcd();
    for (int k = 0; k < rec.names.length; k++) {
      if (rec.names[k].equals(f)) {
        return rec.values[k];
      }
    }
    Assert.fail("Mat: no field " + f + " in " + v);
    return null;
  }

  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) {
      Assert.fail("Mat: not a sequence: " + v);
    }
    return t.elems;
  }

  static Mat m(Value v) {
    Mat x = new Mat(Num.i(field(v, R)), Num.i(field(v, C)));
    Value[] rows = seq(field(v, E));
    if (rows.length != x.r) {
      Assert.fail("Mat: row count of " + v);
    }
    for (int i = 0; i < x.r; i++) {
      Value[] row = seq(rows[i]);
      if (row.length != x.c) {
        Assert.fail("Mat: column count of " + v);
      }
      for (int j = 0; j < x.c; j++) {
        x.e[i][j] = Num.n(row[j]);
      }
    }
    return x;
  }

  Value v() {
    Value[] rows = new Value[r];
    for (int i = 0; i < r; i++) {
      rows[i] = new TupleValue(e[i].clone());
    }
    return new RecordValue(NAMES.clone(), new Value[] {IntValue.gen(r), IntValue.gen(c), new TupleValue(rows)}, false);
  }

  static Value row(NumValue[] x) { return new TupleValue((Value[]) x); }

  private static void same(Mat a, Mat b) {
    if (a.r != b.r || a.c != b.c) {
      Assert.fail("Mat: shape mismatch");
    }
  }

  static Mat eye(int n) {
    Mat x = new Mat(n, n);
    for (int i = 0; i < n; i++) {
      x.e[i][i] = NumValue.ONE;
    }
    return x;
  }

  Mat add(Mat y, boolean minus) {
    same(this, y);
    Mat z = new Mat(r, c);
    for (int i = 0; i < r; i++) {
      for (int j = 0; j < c; j++) {
        z.e[i][j] = minus ? e[i][j].sub(y.e[i][j]) : e[i][j].add(y.e[i][j]);
      }
    }
    return z;
  }

  Mat mul(Mat y) {
    if (c != y.r) {
      Assert.fail("Mat: inner dimensions");
    }
    Mat z = new Mat(r, y.c);
    for (int i = 0; i < r; i++) {
      for (int j = 0; j < y.c; j++) {
        NumValue s = NumValue.ZERO;
        for (int k = 0; k < c; k++) {
          s = s.add(e[i][k].mul(y.e[k][j]));
        }
        z.e[i][j] = s;
      }
    }
    return z;
  }

  Mat scale(NumValue k) {
    Mat z = new Mat(r, c);
    for (int i = 0; i < r; i++) {
      for (int j = 0; j < c; j++) {
        z.e[i][j] = k.mul(e[i][j]);
      }
    }
    return z;
  }

  Mat round(int bits) {
    Mat z = new Mat(r, c);
    for (int i = 0; i < r; i++) {
      for (int j = 0; j < c; j++) {
        z.e[i][j] = e[i][j].round(bits);
      }
    }
    return z;
  }

  Mat trans(boolean conj) {
    Mat z = new Mat(c, r);
    for (int i = 0; i < r; i++) {
      for (int j = 0; j < c; j++) {
        z.e[j][i] = conj ? e[i][j].conj() : e[i][j];
      }
    }
    return z;
  }

  Mat copy() {
    Mat z = new Mat(r, c);
    for (int i = 0; i < r; i++) {
      System.arraycopy(e[i], 0, z.e[i], 0, c);
    }
    return z;
  }

  NumValue max() {
    NumValue s = NumValue.ZERO;
    for (NumValue[] row : e) {
      for (NumValue x : row) {
        NumValue t = x.mag();
        if (t.cmp(s) > 0) {
          s = t;
        }
      }
    }
    return s;
  }

  /** Row-reduces [this | y] in place on the first `this.c` columns; returns the rank, det in out[0]. */
  static int reduce(Mat z, int cols, NumValue[] det) {
    int rank = 0;
    NumValue dd = NumValue.ONE;
    for (int j = 0; j < cols && rank < z.r; j++) {
      int p = -1;
      for (int i = rank; i < z.r; i++) {
        if (!z.e[i][j].isZero()) {
          p = i;
          break;
        }
      }
      if (p < 0) {
        continue;
      }
      if (p != rank) {
        NumValue[] t = z.e[p];
        z.e[p] = z.e[rank];
        z.e[rank] = t;
        dd = dd.neg();
      }
      NumValue pv = z.e[rank][j];
      dd = dd.mul(pv);
      NumValue inv = pv.inv();
      for (int k = j; k < z.c; k++) {
        z.e[rank][k] = z.e[rank][k].mul(inv);
      }
      for (int i = 0; i < z.r; i++) {
        NumValue f = z.e[i][j];
        if (i == rank || f.isZero()) {
          continue;
        }
        for (int k = j; k < z.c; k++) {
          z.e[i][k] = z.e[i][k].sub(f.mul(z.e[rank][k]));
        }
      }
      rank++;
    }
    if (det != null) {
      det[0] = rank == z.r && cols == z.r ? dd : NumValue.ZERO;
    }
    return rank;
  }

  Mat hcat(Mat y) {
    Mat z = new Mat(r, c + y.c);
    for (int i = 0; i < r; i++) {
      System.arraycopy(e[i], 0, z.e[i], 0, c);
      System.arraycopy(y.e[i], 0, z.e[i], c, y.c);
    }
    return z;
  }

  Mat vcat(Mat y) {
    Mat z = new Mat(r + y.r, c);
    for (int i = 0; i < r; i++) {
      System.arraycopy(e[i], 0, z.e[i], 0, c);
    }
    for (int i = 0; i < y.r; i++) {
      System.arraycopy(y.e[i], 0, z.e[r + i], 0, c);
    }
    return z;
  }

  public static Value MEval(Value a) { return m(a).v(); }

  /** <<x, y, ...>> made of already evaluated entries */
  public static Value SEval(Value s) {
    Value[] t = seq(s);
    return new TupleValue(t);
  }

  private static boolean isNumStr(Value v) { return Num.NIsNum(v) == tlc2.value.impl.BoolValue.ValTrue; }

  public static Value MIsNum(Value a) {
    for (Value row : seq(field(a, E))) {
      for (Value x : seq(row)) {
        if (!isNumStr(x)) {
          return Num.b(false);
        }
      }
    }
    return Num.b(true);
  }

  public static Value MParse(Value a) {
    Mat z = new Mat(Num.i(field(a, R)), Num.i(field(a, C)));
    Value[] rows = seq(field(a, E));
    for (int i = 0; i < z.r; i++) {
      Value[] row = seq(rows[i]);
      for (int j = 0; j < z.c; j++) {
        z.e[i][j] = NumValue.parse(Num.s(row[j]));
      }
    }
    return z.v();
  }

  public static Value MStr(Value a) {
    Mat x = m(a);
    Value[] rows = new Value[x.r];
    for (int i = 0; i < x.r; i++) {
      Value[] row = new Value[x.c];
      for (int j = 0; j < x.c; j++) {
        row[j] = new StringValue(x.e[i][j].str());
      }
      rows[i] = new TupleValue(row);
    }
    return new RecordValue(NAMES.clone(), new Value[] {IntValue.gen(x.r), IntValue.gen(x.c), new TupleValue(rows)},
        false);
  }

  public static Value MEye(Value n) { return eye(Num.i(n)).v(); }
  public static Value MZero(Value r, Value c) { return new Mat(Num.i(r), Num.i(c)).v(); }
  public static Value MAdd(Value a, Value b) { return m(a).add(m(b), false).v(); }
  public static Value MSub(Value a, Value b) { return m(a).add(m(b), true).v(); }
  public static Value MMul(Value a, Value b) { return m(a).mul(m(b)).v(); }
  public static Value MScale(Value k, Value a) { return m(a).scale(Num.n(k)).v(); }
  public static Value MTrans(Value a) { return m(a).trans(false).v(); }
  public static Value MCTrans(Value a) { return m(a).trans(true).v(); }
  public static Value MHcat(Value a, Value b) { return m(a).hcat(m(b)).v(); }
  public static Value MVcat(Value a, Value b) { return m(a).vcat(m(b)).v(); }
  public static Value MMax(Value a) { return m(a).max(); }
  public static Value MRound(Value a, Value k) { return m(a).round(Num.i(k)).v(); }

  public static Value MSel(Value a, Value rs, Value cs) {
    Mat x = m(a);
    Value[] ri = seq(rs), ci = seq(cs);
    Mat z = new Mat(ri.length, ci.length);
    for (int i = 0; i < z.r; i++) {
      for (int j = 0; j < z.c; j++) {
        z.e[i][j] = x.e[Num.i(ri[i]) - 1][Num.i(ci[j]) - 1];
      }
    }
    return z.v();
  }

  public static Value MKron(Value a, Value b) {
    Mat x = m(a), y = m(b);
    Mat z = new Mat(x.r * y.r, x.c * y.c);
    for (int i = 0; i < z.r; i++) {
      for (int j = 0; j < z.c; j++) {
        z.e[i][j] = x.e[i / y.r][j / y.c].mul(y.e[i % y.r][j % y.c]);
      }
    }
    return z.v();
  }

  public static Value MHad(Value a, Value b) {
    Mat x = m(a), y = m(b);
    same(x, y);
    Mat z = new Mat(x.r, x.c);
    for (int i = 0; i < z.r; i++) {
      for (int j = 0; j < z.c; j++) {
        z.e[i][j] = x.e[i][j].mul(y.e[i][j]);
      }
    }
    return z.v();
  }

  public static Value MDiag(Value a, Value b) {
    Mat x = m(a), y = m(b);
    Mat z = new Mat(x.r + y.r, x.c + y.c);
    for (int i = 0; i < x.r; i++) {
      System.arraycopy(x.e[i], 0, z.e[i], 0, x.c);
    }
    for (int i = 0; i < y.r; i++) {
      System.arraycopy(y.e[i], 0, z.e[x.r + i], x.c, y.c);
    }
    return z.v();
  }

  /** <<X>> with A X = B, or <<>> when the square matrix A is singular. */
  public static Value MSolve(Value a, Value b) {
    Mat x = m(a), y = m(b);
    if (x.r != x.c || x.r != y.r) {
      Assert.fail("Mat: MSolve shapes");
    }
    Mat z = x.hcat(y);
    if (reduce(z, x.c, null) < x.r) {
      return TupleValue.EmptyTuple;
    }
    Mat s = new Mat(x.r, y.c);
    for (int i = 0; i < x.r; i++) {
      System.arraycopy(z.e[i], x.c, s.e[i], 0, y.c);
    }
    return new TupleValue(new Value[] {s.v()});
  }

  public static Value MDet(Value a) {
    Mat x = m(a).copy();
    if (x.r != x.c) {
      Assert.fail("Mat: MDet of a rectangular matrix");
    }
    NumValue[] det = new NumValue[1];
    reduce(x, x.c, det);
    return x.r == 0 ? NumValue.ONE : det[0];
  }

  public static Value MRank(Value a) {
    Mat x = m(a).copy();
    return IntValue.gen(reduce(x, x.c, null));
  }

  /** Basis of the kernel, one column per basis vector. */
  public static Value MKer(Value a) {
    Mat x = m(a).copy();
    int rank = reduce(x, x.c, null);
    int[] piv = new int[rank];
    boolean[] isp = new boolean[x.c];
    for (int i = 0, j = 0; i < rank; i++) {
      while (x.e[i][j].isZero()) {
        j++;
      }
      piv[i] = j;
      isp[j] = true;
    }
    Mat k = new Mat(x.c, x.c - rank);
    for (int j = 0, q = 0; j < x.c; j++) {
      if (!isp[j]) {
        k.e[j][q] = NumValue.ONE;
        for (int i = 0; i < rank; i++) {
          k.e[piv[i]][q] = x.e[i][j].neg();
        }
        q++;
      }
    }
    return k.v();
  }

  /** det(s I - A), highest power first (Faddeev-LeVerrier). */
  public static Value MCharPoly(Value a) {
    Mat x = m(a);
    int n = x.r;
    NumValue[] p = new NumValue[n + 1];
    p[0] = NumValue.ONE;
    Mat mk = new Mat(n, n);
    for (int k = 1; k <= n; k++) {
      Mat t = x.mul(mk);
      for (int i = 0; i < n; i++) {
        t.e[i][i] = t.e[i][i].add(p[k - 1]);
      }
      mk = t;
      Mat am = x.mul(mk);
      NumValue tr = NumValue.ZERO;
      for (int i = 0; i < n; i++) {
        tr = tr.add(am.e[i][i]);
      }
      p[k] = tr.neg().div(NumValue.of(k));
    }
    return row(p);
  }

  /** exp(A) to about 2^-120, scaling and squaring on the Taylor series. */
  public static Value MExp(Value a) {
    int w = 260;
    Mat x = m(a).round(w);
    int k = 0;
    NumValue q = NumValue.of(1).div(NumValue.of(4 * Math.max(1, x.r)));
    while (x.max().cmp(q) > 0) {
      x = x.scale(NumValue.of(1).div(NumValue.of(2))).round(w);
      k++;
    }
    Mat s = eye(x.r), t = eye(x.r);
    for (int i = 1; i < 200; i++) {
      t = t.mul(x).scale(NumValue.of(1).div(NumValue.of(i))).round(w);
      if (t.max().isZero()) {
        break;
      }
      s = s.add(t, false);
    }
    for (; k > 0; k--) {
      s = s.mul(s).round(w);
    }
    return s.round(160).v();
  }

  /** D + C (s I - A)^-1 B as <<M>>, or <<>> when s is an eigenvalue of A. */
  public static Value SSAt(Value a, Value b, Value c, Value d, Value s) {
    Mat x = m(a), y = m(b), z = m(c), w = m(d);
    NumValue q = Num.n(s);
    if (x.r == 0) {
      return new TupleValue(new Value[] {w.v()});
    }
    Mat n = x.scale(NumValue.of(-1));
    for (int i = 0; i < x.r; i++) {
      n.e[i][i] = n.e[i][i].add(q);
    }
    Mat g = n.hcat(y);
    if (reduce(g, x.c, null) < x.r) {
      return TupleValue.EmptyTuple;
    }
    Mat k = new Mat(x.r, y.c);
    for (int i = 0; i < x.r; i++) {
      System.arraycopy(g.e[i], x.c, k.e[i], 0, y.c);
    }
    return new TupleValue(new Value[] {z.mul(k).add(w, false).v()});
  }
}
