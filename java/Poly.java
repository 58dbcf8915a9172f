import java.util.Arrays;

import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.Assert;

/** TLC overrides for the operators of module Poly (same names, same meaning). */
public final class Poly {
  static NumValue[] p(Value v) {
    Value[] t = Mat.seq(v);
    NumValue[] x = new NumValue[t.length];
    for (int i = 0; i < t.length; i++) {
      x[i] = Num.n(t[i]);
    }
    return trim(x);
  }

  static NumValue[] trim(NumValue[] x) {
    int k = 0;
    while (k < x.length && x[k].isZero()) {
      k++;
    }
    return k == 0 ? x : Arrays.copyOfRange(x, k, x.length);
  }

  static Value v(NumValue[] x) { return new TupleValue((Value[]) trim(x).clone()); }

  static NumValue[] add(NumValue[] x, NumValue[] y, boolean minus) {
    int n = Math.max(x.length, y.length);
    NumValue[] z = new NumValue[n];
    for (int i = 0; i < n; i++) {
      NumValue a = i < x.length ? x[x.length - 1 - i] : NumValue.ZERO;
      NumValue b = i < y.length ? y[y.length - 1 - i] : NumValue.ZERO;
      z[n - 1 - i] = minus ? a.sub(b) : a.add(b);
    }
    return trim(z);
  }

  static NumValue[] mul(NumValue[] x, NumValue[] y) {
    if (x.length == 0 || y.length == 0) {
      return new NumValue[0];
    }
    NumValue[] z = new NumValue[x.length + y.length - 1];
    Arrays.fill(z, NumValue.ZERO);
    for (int i = 0; i < x.length; i++) {
      for (int j = 0; j < y.length; j++) {
        z[i + j] = z[i + j].add(x[i].mul(y[j]));
      }
    }
    return z;
  }

  static NumValue[][] divmod(NumValue[] x, NumValue[] y) {
    if (y.length == 0) {
      Assert.fail("Poly: division by the zero polynomial");
    }
    if (x.length < y.length) {
      return new NumValue[][] {new NumValue[0], x};
    }
    NumValue[] r = x.clone();
    NumValue[] q = new NumValue[x.length - y.length + 1];
    for (int i = 0; i < q.length; i++) {
      q[i] = r[i].div(y[0]);
      for (int j = 0; j < y.length; j++) {
        r[i + j] = r[i + j].sub(q[i].mul(y[j]));
      }
    }
    return new NumValue[][] {q, trim(Arrays.copyOfRange(r, q.length, r.length))};
  }

  static NumValue[] monic(NumValue[] x) {
    NumValue[] z = new NumValue[x.length];
    for (int i = 0; i < z.length; i++) {
      z[i] = x[i].div(x[0]);
    }
    return z;
  }

  static NumValue[] gcd(NumValue[] x, NumValue[] y) {
    while (y.length > 0) {
      NumValue[] r = divmod(x, y)[1];
      x = y;
      y = monic(r);
    }
    return monic(x);
  }

  public static Value PTrim(Value a) { return v(p(a)); }
  public static Value PDeg(Value a) { return IntValue.gen(p(a).length - 1); }
  public static Value PAdd(Value a, Value b) { return v(add(p(a), p(b), false)); }
  public static Value PSub(Value a, Value b) { return v(add(p(a), p(b), true)); }
  public static Value PMul(Value a, Value b) { return v(mul(p(a), p(b))); }

  public static Value PScale(Value k, Value a) { return v(mul(new NumValue[] {Num.n(k)}, p(a))); }

  public static Value PDivMod(Value a, Value b) {
    NumValue[][] t = divmod(p(a), p(b));
    return new TupleValue(new Value[] {v(t[0]), v(t[1])});
  }

  public static Value PGcd(Value a, Value b) { return v(gcd(p(a), p(b))); }

  public static Value PMonic(Value a) { return v(monic(p(a))); }

  public static Value PEval(Value a, Value x) {
    NumValue s = NumValue.ZERO, q = Num.n(x);
    for (NumValue c : p(a)) {
      s = s.mul(q).add(c);
    }
    return s;
  }

  public static Value PFromRoots(Value rs) {
    NumValue[] z = {NumValue.ONE};
    for (Value r : Mat.seq(rs)) {
      z = mul(z, new NumValue[] {NumValue.ONE, Num.n(r).neg()});
    }
    return v(z);
  }

  public static Value PNorm(Value a) {
    NumValue s = NumValue.ZERO;
    for (NumValue c : p(a)) {
      if (c.mag().cmp(s) > 0) {
        s = c.mag();
      }
    }
    return s;
  }

  public static Value PParse(Value a) {
    Value[] t = Mat.seq(a);
    NumValue[] x = new NumValue[t.length];
    for (int i = 0; i < t.length; i++) {
      x[i] = NumValue.parse(Num.s(t[i]));
    }
    return new TupleValue((Value[]) x);
  }

  public static Value PIsNum(Value a) {
    for (Value t : Mat.seq(a)) {
      if (Num.NIsNum(t) != tlc2.value.impl.BoolValue.ValTrue) {
        return Num.b(false);
      }
    }
    return Num.b(true);
  }
}
