import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of spec/QF.tla: the same functions on java.math.BigInteger. */
public class QF {
  static final class T { BigInteger a, b, c; T(BigInteger a, BigInteger b, BigInteger c) { this.a = a; this.b = b; this.c = c; } }

  static T dec(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return new T(BigInt.dec(e[0]), BigInt.dec(e[1]), BigInt.dec(e[2]));
  }

  static Value mk(BigInteger a, BigInteger b, BigInteger c) {
    BigInteger g = a.gcd(b).gcd(c);
    if (c.signum() < 0) g = g.negate();
    if (!g.equals(BigInteger.ONE)) { a = a.divide(g); b = b.divide(g); c = c.divide(g); }
    return new TupleValue(new Value[] {BigInt.enc(a), BigInt.enc(b), BigInt.enc(c)});
  }

  static int k(Value k, int i) { return ((IntValue) ((TupleValue) k.toTuple()).elems[i]).val; }
  static BigInteger z(int n) { return BigInteger.valueOf(n); }

  public static Value QCanon(Value x) { T t = dec(x); return mk(t.a, t.b, t.c); }
  public static Value QNeg(Value x) { T t = dec(x); return mk(t.a.negate(), t.b.negate(), t.c); }

  static Value add(T x, T y, boolean minus) {
    BigInteger ya = minus ? y.a.negate() : y.a, yb = minus ? y.b.negate() : y.b;
    if (x.c.equals(y.c)) return mk(x.a.add(ya), x.b.add(yb), x.c);
    return mk(x.a.multiply(y.c).add(ya.multiply(x.c)), x.b.multiply(y.c).add(yb.multiply(x.c)), x.c.multiply(y.c));
  }
  public static Value QAdd(Value x, Value y) { return add(dec(x), dec(y), false); }
  public static Value QSub(Value x, Value y) { return add(dec(x), dec(y), true); }

  public static Value QMul(Value k, Value xx, Value yy) {
    T x = dec(xx), y = dec(yy);
    int P = k(k, 0), Q = k(k, 1), R = k(k, 2);
    BigInteger bb = x.b.multiply(y.b);
    BigInteger a = x.a.multiply(y.a), m = x.a.multiply(y.b).add(x.b.multiply(y.a)), c = x.c.multiply(y.c);
    if (R != 1) { a = a.multiply(z(R)); m = m.multiply(z(R)); c = c.multiply(z(R)); }
    return mk(a.add(bb.multiply(z(Q))), m.add(bb.multiply(z(P))), c);
  }

  public static Value QInv(Value k, Value xx) {
    T x = dec(xx);
    BigInteger P = z(k(k, 0)), Q = z(k(k, 1)), R = z(k(k, 2));
    return mk(x.c.multiply(R.multiply(x.a).add(P.multiply(x.b))),
        x.c.multiply(R).multiply(x.b).negate(),
        R.multiply(x.a).multiply(x.a).add(P.multiply(x.a).multiply(x.b)).subtract(Q.multiply(x.b).multiply(x.b)));
  }

  public static Value QSgn(Value k, Value xx) {
    T x = dec(xx);
    int P = k(k, 0), Q = k(k, 1), R = k(k, 2);
    BigInteger X = z(2 * R).multiply(x.a).add(z(P).multiply(x.b));
    int sx = X.signum(), sy = x.b.signum(), s;
    if (sx == sy || sy == 0) s = sx;
    else if (sx == 0) s = sy;
    else s = X.multiply(X).compareTo(z(P * P + 4 * Q * R).multiply(x.b).multiply(x.b)) > 0 ? sx : sy;
    return IntValue.gen(x.c.signum() < 0 ? -s : s);
  }
}
