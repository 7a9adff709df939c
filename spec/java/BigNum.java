import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of module BigNum: naturals of any size, with NaN poisoning everything it touches. */
public class BigNum {
  static BigInteger b(Value x) {
    if (x instanceof BigValue) return ((BigValue) x).v;
    if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
    throw new RuntimeException("not a number: " + x);
  }
  static int i(Value x) { return ((IntValue) x).val; }
  public static Value N(Value s) {
    if (s instanceof StringValue) return BigValue.of(new BigInteger(((StringValue) s).val.toString()));
    return BigValue.of(b(s));
  }
  public static Value IsBig(Value x) { return x instanceof BigValue ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsNaN(Value x) { return x instanceof BigValue && ((BigValue) x).v == null ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NaN() { return BigValue.NAN; }
  public static Value ToI(Value x) { return IntValue.gen(b(x).intValueExact()); }
  public static Value Pow10(Value n) { return BigValue.of(BigInteger.TEN.pow(i(n))); }
  public static Value Pow2(Value n) { return BigValue.of(BigInteger.ONE.shiftLeft(i(n))); }
  public static Value BAdd(Value x, Value y) { BigInteger a = b(x), c = b(y); return a == null || c == null ? BigValue.NAN : BigValue.of(a.add(c)); }
  public static Value BSub(Value x, Value y) { BigInteger a = b(x), c = b(y); return a == null || c == null ? BigValue.NAN : BigValue.of(a.subtract(c)); }
  public static Value BMul(Value x, Value y) { BigInteger a = b(x), c = b(y); return a == null || c == null ? BigValue.NAN : BigValue.of(a.multiply(c)); }
  public static Value BDiv(Value x, Value y) { BigInteger a = b(x), c = b(y); return a == null || c == null || c.signum() == 0 ? BigValue.NAN : BigValue.of(a.divide(c)); }
  public static Value BMod(Value x, Value y) { BigInteger a = b(x), c = b(y); return a == null || c == null || c.signum() == 0 ? BigValue.NAN : BigValue.of(a.mod(c)); }
  public static Value BCeil(Value x, Value y) {
    BigInteger a = b(x), c = b(y);
    if (a == null || c == null || c.signum() == 0) return BigValue.NAN;
    BigInteger[] qr = a.divideAndRemainder(c);
    return BigValue.of(qr[1].signum() == 0 ? qr[0] : qr[0].add(BigInteger.ONE));
  }
  public static Value BSqrt(Value x) { BigInteger a = b(x); return a == null ? BigValue.NAN : BigValue.of(a.sqrt()); }
  public static Value Fit(Value x, Value w) { BigInteger a = b(x); return a == null || a.bitLength() > i(w) ? BigValue.NAN : BigValue.of(a); }
  public static Value WAdd(Value x, Value y, Value w) { BigInteger a = b(x), c = b(y); return a == null || c == null ? BigValue.NAN : BigValue.of(a.add(c).mod(BigInteger.ONE.shiftLeft(i(w)))); }
  public static Value WSub(Value x, Value y, Value w) { BigInteger a = b(x), c = b(y); return a == null || c == null ? BigValue.NAN : BigValue.of(a.subtract(c).mod(BigInteger.ONE.shiftLeft(i(w)))); }
  private static Value cmp(Value x, Value y, int lo, int hi) {
    BigInteger a = b(x), c = b(y);
    if (a == null || c == null) return BoolValue.ValFalse;
    int r = a.compareTo(c);
    return r >= lo && r <= hi ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value BLt(Value x, Value y) { return cmp(x, y, -1, -1); }
  public static Value BLe(Value x, Value y) { return cmp(x, y, -1, 0); }
  public static Value BEq(Value x, Value y) { return cmp(x, y, 0, 0); }
}
