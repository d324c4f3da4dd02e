import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides of the operators of module Big (same meaning, only faster). */
public class Big {
  private static final BigInteger BASE = BigInteger.valueOf(10000);

  private static BigInteger get(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final int s = ((IntValue) e[0]).val;
    if (s == 0) {
      return BigInteger.ZERO;
    }
    final StringBuilder b = new StringBuilder(4 * e.length);
    for (int i = e.length - 1; i >= 1; i--) {
      final int d = ((IntValue) e[i]).val;
      if (d < 10) {
        b.append("000");
      } else if (d < 100) {
        b.append("00");
      } else if (d < 1000) {
        b.append('0');
      }
      b.append(d);
    }
    final BigInteger r = new BigInteger(b.toString());
    return s < 0 ? r.negate() : r;
  }

  private static Value put(final BigInteger x) {
    final int s = x.signum();
    if (s == 0) {
      return new TupleValue(new Value[] {IntValue.gen(0)});
    }
    final String t = x.abs().toString();
    final int n = (t.length() + 3) / 4;
    final Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    int end = t.length();
    for (int i = 1; i <= n; i++) {
      final int start = Math.max(0, end - 4);
      e[i] = IntValue.gen(Integer.parseInt(t.substring(start, end)));
      end = start;
    }
    return new TupleValue(e);
  }

  public static Value BAdd(final Value a, final Value b) {
    return put(get(a).add(get(b)));
  }

  public static Value BSub(final Value a, final Value b) {
    return put(get(a).subtract(get(b)));
  }

  public static Value BMul(final Value a, final Value b) {
    return put(get(a).multiply(get(b)));
  }

  public static Value BDiv(final Value a, final Value b) {
    return put(get(a).divide(get(b)));
  }

  public static Value BCmp(final Value a, final Value b) {
    return IntValue.gen(get(a).compareTo(get(b)));
  }

  public static Value BSqrt(final Value a) {
    return put(get(a).sqrt());
  }

  public static Value BShift(final Value a, final Value n) {
    final int k = ((IntValue) n).val;
    final BigInteger x = get(a);
    return k >= 0 ? put(x.multiply(BASE.pow(k))) : put(x.divide(BASE.pow(-k)));
  }
}
