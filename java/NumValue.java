import java.io.IOException;
import java.math.BigInteger;

import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.ValueConstants;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/**
 * A Gaussian rational (a + b i)/d in lowest terms, d > 0, of unbounded size.
 * It is the value the operators of module Num compute with: TLC itself only
 * has 32-bit integers.
 */
public final class NumValue extends Value {
  static final BigInteger O = BigInteger.ZERO, I = BigInteger.ONE;
  static final NumValue ZERO = new NumValue(O, O, I), ONE = new NumValue(I, O, I);

  final BigInteger a, b, d;

  private NumValue(BigInteger a, BigInteger b, BigInteger d) {
    this.a = a;
    this.b = b;
    this.d = d;
  }

  static NumValue of(long n) {
    return n == 0 ? ZERO : n == 1 ? ONE : new NumValue(BigInteger.valueOf(n), O, I);
  }

  static NumValue of(BigInteger a, BigInteger b, BigInteger d) {
    int sd = d.signum();
    if (sd == 0) {
      Assert.fail("Num: division by zero");
    }
    if (sd < 0) {
      a = a.negate();
      b = b.negate();
      d = d.negate();
    }
    if (!d.equals(I)) {
      if (a.signum() == 0 && b.signum() == 0) {
        return ZERO;
      }
      int z = d.getLowestSetBit();
      if (z > 0) {
        int k = z;
        if (a.signum() != 0) {
          k = Math.min(k, a.getLowestSetBit());
        }
        if (b.signum() != 0) {
          k = Math.min(k, b.getLowestSetBit());
        }
        if (k > 0) {
          a = a.shiftRight(k);
          b = b.shiftRight(k);
          d = d.shiftRight(k);
        }
      }
      if (d.bitLength() - 1 != d.getLowestSetBit()) {
        BigInteger g = a.gcd(d);
        if (b.signum() != 0 && !g.equals(I)) {
          g = g.gcd(b);
        }
        if (!g.equals(I)) {
          a = a.divide(g);
          b = b.divide(g);
          d = d.divide(g);
        }
      }
    }
    return new NumValue(a, b, d);
  }

  boolean isZero() { return a.signum() == 0 && b.signum() == 0; }

  boolean isReal() { return b.signum() == 0; }

  NumValue add(NumValue y) {
    if (y.isZero()) {
      return this;
    }
    if (isZero()) {
      return y;
    }
    if (d.equals(y.d)) {
      return of(a.add(y.a), b.add(y.b), d);
    }
    if (isReal() && y.isReal()) {
      return of(a.multiply(y.d).add(y.a.multiply(d)), O, d.multiply(y.d));
    }
    return of(a.multiply(y.d).add(y.a.multiply(d)), b.multiply(y.d).add(y.b.multiply(d)), d.multiply(y.d));
  }

  NumValue neg() { return isZero() ? this : new NumValue(a.negate(), b.negate(), d); }

  NumValue conj() { return isReal() ? this : new NumValue(a, b.negate(), d); }

  NumValue sub(NumValue y) { return add(y.neg()); }

  NumValue mul(NumValue y) {
    if (isZero() || y.isZero()) {
      return ZERO;
    }
    if (isReal() && y.isReal()) {
      return of(a.multiply(y.a), O, d.multiply(y.d));
    }
    return of(a.multiply(y.a).subtract(b.multiply(y.b)), a.multiply(y.b).add(b.multiply(y.a)), d.multiply(y.d));
  }

  NumValue inv() {
    if (isReal()) {
      return of(d, O, a);
    }
    BigInteger q = a.multiply(a).add(b.multiply(b));
    return of(a.multiply(d), b.negate().multiply(d), q);
  }

  NumValue div(NumValue y) { return isZero() && !y.isZero() ? ZERO : mul(y.inv()); }

  NumValue re() { return of(a, O, d); }

  NumValue im() { return of(b, O, d); }

  NumValue abs2() { return of(a.multiply(a).add(b.multiply(b)), O, d.multiply(d)); }

  /** |re| + |im| */
  NumValue mag() { return of(a.abs().add(b.abs()), O, d); }

  int sign() {
    real("sign");
    return a.signum();
  }

  private void real(String what) {
    if (!isReal()) {
      Assert.fail("Num: " + what + " of a number that is not real");
    }
  }

  private static BigInteger rnd(BigInteger n, BigInteger d, int bits) {
    BigInteger num = bits >= 0 ? n.shiftLeft(bits) : n;
    BigInteger den = bits >= 0 ? d : d.shiftLeft(-bits);
    BigInteger[] qr = num.shiftLeft(1).add(den).divideAndRemainder(den.shiftLeft(1));
    return qr[1].signum() < 0 ? qr[0].subtract(I) : qr[0];
  }

  /** nearest multiple of 2^-bits */
  NumValue round(int bits) {
    return of(rnd(a, d, bits), rnd(b, d, bits), I.shiftLeft(bits));
  }

  /** floor-ish square root of a non-negative real, to 2^-bits */
  NumValue sqrt(int bits) {
    real("sqrt");
    return of(a.shiftLeft(2 * bits).divide(d).sqrt(), O, I.shiftLeft(bits));
  }

  /** exp(this), absolute error below about 2^-(bits-8) for |this| < 64 */
  NumValue exp(int bits) {
    int w = bits + 64 + 96;
    NumValue x = round(w);
    int k = 0;
    while (x.mag().cmp(of(I, O, BigInteger.valueOf(4))) > 0) {
      x = x.div(of(2)).round(w);
      k++;
    }
    NumValue s = ONE, t = ONE;
    for (int i = 1; i < 200; i++) {
      t = t.mul(x).div(of(i)).round(w);
      if (t.isZero()) {
        break;
      }
      s = s.add(t);
    }
    for (; k > 0; k--) {
      s = s.mul(s).round(w);
    }
    return s.round(bits);
  }

  int cmp(NumValue y) {
    real("order");
    y.real("order");
    return a.multiply(y.d).compareTo(y.a.multiply(d));
  }

  String str() {
    String s = a + (d.equals(I) ? "" : "/" + d);
    return isReal() ? s : s + ";" + b + (d.equals(I) ? "" : "/" + d);
  }

  private static NumValue parseReal(String t) {
    int k = t.indexOf('p');
    if (k > 0) {
      BigInteger m = new BigInteger(t.substring(0, k));
      int e = Integer.parseInt(t.substring(k + 1));
      return e >= 0 ? of(m.shiftLeft(e), O, I) : of(m, O, I.shiftLeft(-e));
    }
    k = t.indexOf('/');
    return k < 0 ? of(new BigInteger(t), O, I)
                 : of(new BigInteger(t.substring(0, k)), O, new BigInteger(t.substring(k + 1)));
  }

  static NumValue parse(String t) {
    int k = t.indexOf(';');
    if (k < 0) {
      return parseReal(t);
    }
    NumValue x = parseReal(t.substring(0, k)), y = parseReal(t.substring(k + 1));
    return of(x.a.multiply(y.d), y.a.multiply(x.d), x.d.multiply(y.d));
  }

  @Override public byte getKind() { return ValueConstants.STRINGVALUE; }

  @Override public int compareTo(Object o) {
    NumValue y = Num.n((Value) o);
    int c = a.multiply(y.d).compareTo(y.a.multiply(d));
    return c != 0 ? c : b.multiply(y.d).compareTo(y.b.multiply(d));
  }

  @Override public boolean equals(Object o) {
    NumValue y = Num.n((Value) o);
    return a.equals(y.a) && b.equals(y.b) && d.equals(y.d);
  }

  @Override public boolean member(Value e) {
    Assert.fail("Num: a number is not a set");
    return false;
  }

  @Override public boolean isFinite() {
    Assert.fail("Num: a number is not a set");
    return false;
  }

  @Override public Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) {
      Assert.fail("Num: EXCEPT applied to a number");
    }
    return ex.value;
  }

  @Override public Value takeExcept(ValueExcept[] exs) {
    Assert.fail("Num: EXCEPT applied to a number");
    return this;
  }

  @Override public int size() {
    Assert.fail("Num: a number has no size");
    return 0;
  }

  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public void deepNormalize() { }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public IValue permute(IMVPerm p) { return this; }

  @Override public void write(IValueOutputStream vos) throws IOException {
    throw new IOException("Num: numbers may not be spooled to disk");
  }

  @Override public long fingerPrint(long fp) {
    return FP64.Extend(FP64.Extend(fp, ValueConstants.STRINGVALUE), str());
  }

  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append(str());
  }
}
