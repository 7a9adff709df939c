import com.google.gson.*;
import java.io.*;
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC override of module TraceIO: reads newline-delimited JSON; strings of decimal digits become numbers. */
public class TraceIO {
  private static final Map<String, Value> cache = new HashMap<>();
  static Value conv(JsonElement e) {
    if (e.isJsonNull()) return new StringValue("null");
    if (e.isJsonArray()) {
      JsonArray a = e.getAsJsonArray();
      Value[] v = new Value[a.size()];
      for (int i = 0; i < v.length; i++) v[i] = conv(a.get(i));
      return new TupleValue(v);
    }
    if (e.isJsonObject()) {
      JsonObject o = e.getAsJsonObject();
      if (o.size() == 0) return new TupleValue(new Value[0]);
      List<UniqueString> n = new ArrayList<>();
      List<Value> v = new ArrayList<>();
      for (Map.Entry<String, JsonElement> x : o.entrySet()) {
        n.add(UniqueString.uniqueStringOf(x.getKey()));
        v.add(conv(x.getValue()));
      }
      return new RecordValue(n.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
    }
    JsonPrimitive p = e.getAsJsonPrimitive();
    if (p.isBoolean()) return p.getAsBoolean() ? BoolValue.ValTrue : BoolValue.ValFalse;
    if (p.isNumber()) return IntValue.gen(new BigInteger(p.getAsString()).intValueExact());
    String s = p.getAsString();
    if (!s.isEmpty() && s.chars().allMatch(c -> c >= '0' && c <= '9')) return BigValue.of(new BigInteger(s));
    return new StringValue(s);
  }
  public static Value HasField(Value x, Value f) {
    if (!(x instanceof RecordValue)) return BoolValue.ValFalse;
    for (UniqueString n : ((RecordValue) x).names) if (n.toString().equals(((StringValue) f).val.toString())) return BoolValue.ValTrue;
    return BoolValue.ValFalse;
  }
  private static PrintWriter out;
  private static int count;
  static JsonElement json(Value v) {
    if (v instanceof IntValue) return new JsonPrimitive(((IntValue) v).val);
    if (v instanceof BoolValue) return new JsonPrimitive(((BoolValue) v).val);
    if (v instanceof BigValue) return new JsonPrimitive(((BigValue) v).v.toString());
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      return s.equals("null") ? JsonNull.INSTANCE : new JsonPrimitive(s);
    }
    if (v instanceof SetEnumValue) {
      v.normalize();
      JsonArray a = new JsonArray();
      for (ValueEnumeration x = ((SetEnumValue) v).elements();;) {
        Value e = x.nextElement();
        if (e == null) return a;
        a.add(json(e));
      }
    }
    Value t = v instanceof TupleValue ? v : v.toTuple();
    if (t != null && !(v instanceof RecordValue)) {
      JsonArray a = new JsonArray();
      for (Value e : ((TupleValue) t).elems) a.add(json(e));
      return a;
    }
    RecordValue r = (RecordValue) v.toRcd();
    JsonObject o = new JsonObject();
    for (int i = 0; i < r.names.length; i++) o.add(r.names[i].toString(), json(r.values[i]));
    return o;
  }
  public static synchronized Value Emit(Value path, Value parent, Value op) throws IOException {
    if (out == null) {
      out = new PrintWriter(new BufferedWriter(new FileWriter(((StringValue) path).val.toString(), true)));
      Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (TraceIO.class) { out.close(); } }));
    }
    if (((IntValue) parent).val < 0) {
      out.println(json(op));
      return IntValue.gen(0);
    }
    count++;
    JsonObject o = new JsonObject();
    o.addProperty("n", count);
    o.add("p", json(parent));
    o.add("o", json(op));
    out.println(o);
    return IntValue.gen(count);
  }
  public static synchronized Value ReadTraces(Value path) throws IOException {
    String f = ((StringValue) path).val.toString();
    Value r = cache.get(f);
    if (r != null) return r;
    List<Value> l = new ArrayList<>();
    try (BufferedReader br = new BufferedReader(new FileReader(f))) {
      String line;
      while ((line = br.readLine()) != null) if (!line.isBlank()) l.add(conv(JsonParser.parseString(line)));
    }
    r = new TupleValue(l.toArray(new Value[0]));
    r.deepNormalize();
    cache.put(f, r);
    return r;
  }
}
