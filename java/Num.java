import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import util.Assert;

/** TLC overrides for the operators of module Num (same names, same meaning). */
public final class Num {
  static NumValue n(Value v) {
    if (v instanceof NumValue) {
      return (NumValue) v;
    }
    Assert.fail("Num: not a number: " + v);
    return null;
  }

  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static int i(Value v) { return ((IntValue) v).val; }

  static String s(Value v) { return ((StringValue) v).val.toString(); }

  public static Value NInt(Value k) { return NumValue.of(i(k)); }
  public static Value NFrac(Value p, Value q) { return NumValue.of(i(p)).div(NumValue.of(i(q))); }
  public static Value NCplx(Value x, Value y) {
    return n(x).add(n(y).mul(NumValue.of(NumValue.O, NumValue.I, NumValue.I)));
  }
  public static Value NIsNum(Value t) {
    return b(s(t).matches("-?[0-9]+(p-?[0-9]+|/[0-9]+)?(;-?[0-9]+(p-?[0-9]+|/[0-9]+)?)?"));
  }
  public static Value NParse(Value t) { return NumValue.parse(s(t)); }
  public static Value NStr(Value x) { return new StringValue(n(x).str()); }
  public static Value NAdd(Value x, Value y) { return n(x).add(n(y)); }
  public static Value NSub(Value x, Value y) { return n(x).sub(n(y)); }
  public static Value NMul(Value x, Value y) { return n(x).mul(n(y)); }
  public static Value NDiv(Value x, Value y) { return n(x).div(n(y)); }
  public static Value NNeg(Value x) { return n(x).neg(); }
  public static Value NConj(Value x) { return n(x).conj(); }
  public static Value NRe(Value x) { return n(x).re(); }
  public static Value NIm(Value x) { return n(x).im(); }
  public static Value NAbs2(Value x) { return n(x).abs2(); }
  public static Value NMag(Value x) { return n(x).mag(); }
  public static Value NIsZero(Value x) { return b(n(x).isZero()); }
  public static Value NIsReal(Value x) { return b(n(x).isReal()); }
  public static Value NSign(Value x) { return IntValue.gen(n(x).sign()); }
  public static Value NLt(Value x, Value y) { return b(n(x).cmp(n(y)) < 0); }
  public static Value NLe(Value x, Value y) { return b(n(x).cmp(n(y)) <= 0); }
  public static Value NRound(Value x, Value k) { return n(x).round(i(k)); }
  public static Value NSqrt(Value x) { return n(x).sqrt(160); }
  public static Value NExp(Value x) { return n(x).exp(160); }
}
