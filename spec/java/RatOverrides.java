import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TLC module overrides of BigRat (definition: BigRatPure.tla) and of JMul (Jet.tla). */
public class RatOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() { return new Class[] {RatOverrides.class}; }

  static final int B = 14, MASK = (1 << B) - 1;
  static final BigInteger ONE = BigInteger.ONE;

  static TupleValue tup(Object v) {
    TupleValue t = (TupleValue) ((Value) v).toTuple();
    if (t == null) throw new RuntimeException("BigRat: not a tuple: " + v);
    return t;
  }

  static BigInteger dec(Value v) {
    Value[] e = tup(v).elems;
    int s = ((IntValue) e[0]).val, n = e.length - 1;
    if (s < -1 || s > 1) throw new RuntimeException("BigRat: arithmetic on a non-finite number");
    if (n <= 4) {
      long x = 0;
      for (int i = n; i >= 1; i--) x = (x << B) | ((IntValue) e[i]).val;
      return BigInteger.valueOf(s < 0 ? -x : x);
    }
    int bytes = (n * B + 7) / 8 + 1, p = bytes - 1, nb = 0;
    byte[] out = new byte[bytes];
    long acc = 0;
    for (int i = 1; i <= n; i++) {
      acc |= ((long) ((IntValue) e[i]).val) << nb;
      nb += B;
      while (nb >= 8) { out[p--] = (byte) acc; acc >>>= 8; nb -= 8; }
    }
    if (nb > 0) out[p--] = (byte) acc;
    BigInteger r = new BigInteger(out);
    return s < 0 ? r.negate() : r;
  }

  static Value enc(BigInteger x) {
    BigInteger m = x.abs();
    int n = (m.bitLength() + B - 1) / B;
    Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(x.signum());
    if (m.bitLength() <= 62) {
      long y = m.longValue();
      for (int i = 1; i <= n; i++) { e[i] = IntValue.gen((int) (y & MASK)); y >>= B; }
    } else {
      byte[] b = m.toByteArray();
      long acc = 0;
      int nb = 0, p = b.length - 1;
      for (int i = 1; i <= n; i++) {
        while (nb < B && p >= 0) { acc |= ((long) (b[p--] & 255)) << nb; nb += 8; }
        e[i] = IntValue.gen((int) (acc & MASK));
        acc >>>= B;
        nb -= B;
      }
    }
    return new TupleValue(e);
  }

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    static Q of(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new RuntimeException("BigRat: division by zero");
      if (!d.equals(ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      }
      return new Q(n, d);
    }
    Q add(Q o) {
      if (n.signum() == 0) return o;
      if (o.n.signum() == 0) return this;
      if (d.equals(o.d)) return of(n.add(o.n), d);
      return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    Q mul(Q o) {
      if (n.signum() == 0) return this;
      if (o.n.signum() == 0) return o;
      return of(n.multiply(o.n), d.multiply(o.d));
    }
    Value value() { return new TupleValue(new Value[] {enc(n), enc(d)}); }
  }

  static Q q(Object v) {
    Value[] e = tup(v).elems;
    return new Q(dec(e[0]), dec(e[1]));
  }

  static int i(Value v) { return ((IntValue) v).val; }

  @TLAPlusOperator(identifier = "RInt", module = "BigRat", warn = false)
  public static Value rint(Value n) { return new Q(BigInteger.valueOf(i(n)), ONE).value(); }

  @TLAPlusOperator(identifier = "RFrac", module = "BigRat", warn = false)
  public static Value rfrac(Value n, Value d) {
    return Q.of(BigInteger.valueOf(i(n)), BigInteger.valueOf(i(d))).value();
  }

  @TLAPlusOperator(identifier = "RAdd", module = "BigRat", warn = false)
  public static Value radd(Value a, Value b) { return q(a).add(q(b)).value(); }

  @TLAPlusOperator(identifier = "RSub", module = "BigRat", warn = false)
  public static Value rsub(Value a, Value b) {
    Q y = q(b);
    return q(a).add(new Q(y.n.negate(), y.d)).value();
  }

  @TLAPlusOperator(identifier = "RMul", module = "BigRat", warn = false)
  public static Value rmul(Value a, Value b) {
    Q r = q(a).mul(q(b));
    return (r.n.signum() == 0 ? new Q(BigInteger.ZERO, ONE) : r).value();
  }

  @TLAPlusOperator(identifier = "RDiv", module = "BigRat", warn = false)
  public static Value rdiv(Value a, Value b) {
    Q x = q(a), y = q(b);
    return Q.of(x.n.multiply(y.d), x.d.multiply(y.n)).value();
  }

  @TLAPlusOperator(identifier = "RNeg", module = "BigRat", warn = false)
  public static Value rneg(Value a) { Q x = q(a); return new Q(x.n.negate(), x.d).value(); }

  @TLAPlusOperator(identifier = "RSgn", module = "BigRat", warn = false)
  public static Value rsgn(Value a) { return tup(tup(a).elems[0]).elems[0]; }

  @TLAPlusOperator(identifier = "RLeq", module = "BigRat", warn = false)
  public static Value rleq(Value a, Value b) {
    Q x = q(a), y = q(b);
    return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static Q[] jet(Object v) {
    Value[] e = tup(v).elems;
    return new Q[] {q(e[0]), q(e[1]), q(e[2]), q(e[3])};
  }

  static Q norm(Q x) { return x.n.signum() == 0 ? new Q(BigInteger.ZERO, ONE) : x; }

  static Value jetv(Q a, Q b, Q c, Q d) {
    return new TupleValue(new Value[] {norm(a).value(), norm(b).value(), norm(c).value(), norm(d).value()});
  }

  @TLAPlusOperator(identifier = "JMul", module = "Jet", warn = false)
  public static Value jmul(Value a, Value b) {
    Q[] x = jet(a), y = jet(b);
    return jetv(x[0].mul(y[0]), x[0].mul(y[1]).add(x[1].mul(y[0])), x[0].mul(y[2]).add(x[2].mul(y[0])),
        x[0].mul(y[3]).add(x[3].mul(y[0])).add(x[1].mul(y[2])).add(x[2].mul(y[1])));
  }

  @TLAPlusOperator(identifier = "JAdd", module = "Jet", warn = false)
  public static Value jadd(Value a, Value b) {
    Q[] x = jet(a), y = jet(b);
    return jetv(x[0].add(y[0]), x[1].add(y[1]), x[2].add(y[2]), x[3].add(y[3]));
  }
}
