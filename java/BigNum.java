import tlc2.value.impl.*;
import java.math.BigInteger;

/* Java overrides of the operators of spec/BigNum.tla (same name, same arity).
   A number is the tuple <<sign, limb0, limb1, ...>>, base 10^4, least
   significant limb first, no leading zero limb, zero is <<0>>.
   spec/BigNumTest.tla compares every override with its TLA+ definition. */
public class BigNum {
  static final BigInteger E16 = BigInteger.valueOf(10000000000000000L);
  static final BigInteger ONE = BigInteger.TEN.pow(24);

  static BigInteger get(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    if (s != 1 && s != -1) throw new RuntimeException("BigNum: not a number: " + v);
    int i = e.length - 1;
    BigInteger r = null;
    while (i > 0) {
      long acc = 0;
      int take = (i % 4 == 0) ? 4 : (i % 4);
      for (int q = 0; q < take; q++) { acc = acc * 10000 + ((IntValue) e[i]).val; i--; }
      r = (r == null) ? BigInteger.valueOf(acc) : r.multiply(E16).add(BigInteger.valueOf(acc));
    }
    return s < 0 ? r.negate() : r;
  }

  static Value put(BigInteger b) {
    final int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
    if (s < 0) b = b.negate();
    final int[] buf = new int[b.bitLength() / 13 + 8];
    int n = 0;
    while (b.bitLength() > 62) {
      final BigInteger[] qr = b.divideAndRemainder(E16);
      long r = qr[1].longValue();
      b = qr[0];
      for (int q = 0; q < 4; q++) { buf[n++] = (int) (r % 10000); r /= 10000; }
    }
    long r = b.longValue();
    while (r > 0) { buf[n++] = (int) (r % 10000); r /= 10000; }
    while (n > 0 && buf[n - 1] == 0) n--;
    final Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    for (int i = 0; i < n; i++) e[i + 1] = IntValue.gen(buf[i]);
    return new TupleValue(e);
  }

  public static Value BAdd(final Value a, final Value b) { return put(get(a).add(get(b))); }
  public static Value BSub(final Value a, final Value b) { return put(get(a).subtract(get(b))); }
  public static Value BMul(final Value a, final Value b) { return put(get(a).multiply(get(b))); }
  /* quotient rounded towards zero; b # 0 */
  public static Value BQuo(final Value a, final Value b) { return put(get(a).divide(get(b))); }
  public static Value BLe(final Value a, final Value b) {
    return get(a).compareTo(get(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  /* integer square root of a >= 0 */
  public static Value BSqrt(final Value a) { return put(get(a).sqrt()); }
  /* fixed-point product, rounded towards zero */
  public static Value FMul(final Value a, final Value b) { return put(get(a).multiply(get(b)).divide(ONE)); }
  /* fixed-point dot product of two sequences of equal length: exact sum of the products, then rounded */
  public static Value FDot(final Value a, final Value b) {
    final Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
    if (x.length != y.length) throw new RuntimeException("FDot: lengths differ");
    BigInteger s = BigInteger.ZERO;
    for (int i = 0; i < x.length; i++) s = s.add(get(x[i]).multiply(get(y[i])));
    return put(s.divide(ONE));
  }

  static final BigInteger LN2 = new BigInteger("693147180559945309417232");
  static final BigInteger HALF = ONE.shiftRight(1);
  static final BigInteger LOW = ONE.multiply(BigInteger.valueOf(-70));
  static final BigInteger[] INTS = new BigInteger[19];
  static { for (int i = 0; i < 19; i++) INTS[i] = BigInteger.valueOf(i); }
  public static Value FExp(final Value a) {
    final BigInteger x = get(a);
    if (x.compareTo(LOW) <= 0) return put(BigInteger.ZERO);
    final BigInteger q = x.multiply(ONE).divide(LN2);
    final int n = q.add(q.signum() < 0 ? HALF.negate() : HALF).divide(ONE).intValueExact();
    final BigInteger r = x.subtract(LN2.multiply(BigInteger.valueOf(n)));
    BigInteger e = ONE;
    for (int i = 18; i > 0; i--) e = ONE.add(r.multiply(e).divide(ONE).divide(INTS[i]));
    return put(n >= 0 ? e.shiftLeft(n) : e.divide(BigInteger.ONE.shiftLeft(-n)));
  }
}
