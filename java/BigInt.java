import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of spec/BigInt.tla: same functions, computed with java.math.BigInteger. */
public class BigInt {
  static final int SH = 15, MASK = (1 << SH) - 1;

  static final IntValue[] SMALL = new IntValue[MASK + 1];
  static final IntValue M1 = IntValue.gen(-1);

  static BigInteger dec(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int n = e.length;
    int s = ((IntValue) e[0]).val;
    if (n <= 5) {
      long r = 0;
      for (int i = n - 1; i >= 1; i--) r = (r << SH) | ((IntValue) e[i]).val;
      return BigInteger.valueOf(s < 0 ? -r : r);
    }
    BigInteger r = BigInteger.ZERO;
    int i = n - 1;
    for (; i >= 1; ) {           // take up to 4 digits (60 bits) at a time
      long chunk = 0; int k = 0;
      for (; k < 4 && i >= 1; k++, i--) chunk = (chunk << SH) | ((IntValue) e[i]).val;
      r = r.shiftLeft(SH * k).or(BigInteger.valueOf(chunk));
    }
    return s < 0 ? r.negate() : r;
  }

  static Value enc(BigInteger x) {
    int s = x.signum();
    BigInteger m = x.abs();
    int bits = m.bitLength();
    int n = (bits + SH - 1) / SH;
    Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    if (bits <= 62) {
      long r = m.longValue();
      for (int i = 1; i <= n; i++) { e[i] = IntValue.gen((int) (r & MASK)); r >>>= SH; }
    } else {
      int i = 1;
      while (i <= n) {
        long r = m.longValue();
        for (int k = 0; k < 4 && i <= n; k++, i++) { e[i] = IntValue.gen((int) (r & MASK)); r >>>= SH; }
        m = m.shiftRight(4 * SH);
      }
    }
    return new TupleValue(e);
  }

  public static Value ZInt(IntValue n) { return enc(BigInteger.valueOf(n.val)); }
  public static Value ZNeg(Value a) { return enc(dec(a).negate()); }
  public static Value ZAdd(Value a, Value b) { return enc(dec(a).add(dec(b))); }
  public static Value ZSub(Value a, Value b) { return enc(dec(a).subtract(dec(b))); }
  public static Value ZMul(Value a, Value b) { return enc(dec(a).multiply(dec(b))); }
  public static Value ZCmp(Value a, Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }
  public static Value ZQuo(Value a, Value b) { return enc(dec(a).divide(dec(b))); }
  public static Value ZGcd(Value a, Value b) { return enc(dec(a).gcd(dec(b))); }
}
