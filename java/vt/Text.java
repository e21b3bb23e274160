package vt;
import java.nio.charset.StandardCharsets;
import java.util.Arrays;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Strings for TLC: the Java side of specs/Text.tla. */
public class Text {
  static String t(Value v) { return ((StringValue) v).val.toString(); }
  @TLAPlusOperator(identifier = "StrLt", module = "Text", warn = false)
  public static Value lt(Value a, Value b) {
    return Arrays.compareUnsigned(t(a).getBytes(StandardCharsets.UTF_8), t(b).getBytes(StandardCharsets.UTF_8)) < 0
        ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  @TLAPlusOperator(identifier = "Chars", module = "Text", warn = false)
  public static Value chars(Value a) {
    String s = t(a);
    Value[] r = new Value[s.length()];
    for (int i = 0; i < r.length; ++i) r[i] = new StringValue(s.substring(i, i + 1));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Glue", module = "Text", warn = false)
  public static Value glue(Value a) {
    StringBuilder b = new StringBuilder();
    for (Value v : ((TupleValue) a.toTuple()).elems) b.append(t(v));
    return new StringValue(b.toString());
  }
}
