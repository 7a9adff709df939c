import java.math.BigInteger;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import util.UniqueString;

/** A natural number of any size as a TLC value; NaN (v == null) is "undefined / out of range". */
public final class BigValue extends Value {
  public final BigInteger v;
  public static final BigValue NAN = new BigValue(null);
  public BigValue(BigInteger v) { this.v = v; }
  public static BigValue of(BigInteger x) { return x == null || x.signum() < 0 ? NAN : new BigValue(x); }
  private String s() { return v == null ? "NaN" : v.toString(); }
  @Override public byte getKind() { return USERVALUE; }
  @Override public boolean member(Value x) { return false; }
  @Override public Value takeExcept(ValueExcept x) {
    if (x.idx < x.path.length) throw new RuntimeException("EXCEPT on a number");
    return x.value;
  }
  @Override public Value takeExcept(ValueExcept[] x) {
    Value r = this;
    for (ValueExcept e : x) r = r.takeExcept(e);
    return r;
  }
  @Override public Value normalize() { return this; }
  @Override public boolean isNormalized() { return true; }
  @Override public boolean isFinite() { return true; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public int size() { return 1; }
  @Override public boolean mutates() { return false; }
  @Override public int compareTo(Object o) {
    if (!(o instanceof BigValue)) return -1;
    BigInteger w = ((BigValue) o).v;
    if (v == null) return w == null ? 0 : -1;
    return w == null ? 1 : v.compareTo(w);
  }
  @Override public boolean equals(Object o) {
    if (!(o instanceof BigValue)) return false;
    BigInteger w = ((BigValue) o).v;
    return v == null ? w == null : v.equals(w);
  }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    return sb.append('"').append(s()).append('"');
  }
  @Override public long fingerPrint(long fp) {
    fp = tlc2.util.FP64.Extend(fp, (int) USERVALUE);
    return tlc2.util.FP64.Extend(fp, s());
  }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public void write(IValueOutputStream out) throws java.io.IOException {
    throw new java.io.IOException("big numbers are kept in memory");
  }
}
