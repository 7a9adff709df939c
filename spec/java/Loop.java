import java.util.concurrent.ConcurrentHashMap;
import tlc2.tool.EvalControl;
import tlc2.value.impl.*;

/** TLC override of module Loop. */
public class Loop {
  private static final ConcurrentHashMap<String, Value> known = new ConcurrentHashMap<>();

  /** f(x), remembered under the name of f. */
  public static Value Memo(Value name, final OpValue f, Value x) {
    String k = name + "/" + x;
    Value v = known.get(k);
    if (v == null) {
      v = f.eval(new Value[] {x}, EvalControl.Clear);
      v.deepNormalize();
      known.put(k, v);
    }
    return v;
  }
  private static final int MOST = 100_000;
  private static final ConcurrentHashMap<Long, Value> recent = new ConcurrentHashMap<>();

  /** f(x), remembered for a while; x is recognised by its fingerprint, as TLC recognises states. */
  public static Value Recall(Value name, final OpValue f, Value x) {
    x.deepNormalize();
    long k = x.fingerPrint(name.fingerPrint(tlc2.util.FP64.New()));
    Value v = recent.get(k);
    if (v == null) {
      v = f.eval(new Value[] {x}, EvalControl.Clear);
      v.deepNormalize();
      if (recent.size() > MOST) recent.clear();
      recent.put(k, v);
    }
    return v;
  }
  public static Value Last(final OpValue p, Value lo, Value hi) {
    int l = ((IntValue) lo).val, h = ((IntValue) hi).val;
    while (l < h) {
      int m = l + (h - l + 1) / 2;
      if (((BoolValue) p.eval(new Value[] {IntValue.gen(m)}, EvalControl.Clear)).val) l = m;
      else h = m - 1;
    }
    return IntValue.gen(l);
  }
  public static Value While(final OpValue c, final OpValue b, Value s) {
    Value[] a = new Value[1];
    while (true) {
      a[0] = s;
      if (!((BoolValue) c.eval(a, EvalControl.Clear)).val) return s;
      s = b.eval(new Value[] {s}, EvalControl.Clear);
      s.deepNormalize();
    }
  }
}
