import tlc2.value.impl.*;
import java.util.Arrays;

/** TLC module override for Text.tla. */
public class Text {
  private static String[] strings(Value q) {
    Value t = q.toTuple();
    Value[] v = ((TupleValue) t).elems;
    String[] s = new String[v.length];
    for (int i = 0; i < s.length; i++) s[i] = ((StringValue) v[i]).val.toString();
    return s;
  }
  public static Value SSort(Value q) {
    String[] s = strings(q);
    Arrays.sort(s);
    Value[] v = new Value[s.length];
    for (int i = 0; i < s.length; i++) v[i] = new StringValue(s[i]);
    return new TupleValue(v);
  }
  public static Value SJoin(Value q, Value sep) {
    return new StringValue(String.join(((StringValue) sep).val.toString(), strings(q)));
  }
}
