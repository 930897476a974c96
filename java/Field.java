// TLC module override for the operators of spec/Field.tla: same results as
// the TLA+ definitions (MCFieldOverride checks the agreement), much faster.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.BoolValue;

public class Field {
  static final int BITS = 13;
  static final long MASK = (1L << BITS) - 1;
  static final BigInteger P61 = BigInteger.ONE.shiftLeft(61).subtract(BigInteger.ONE);
  static final BigInteger P127 = BigInteger.ONE.shiftLeft(127).subtract(BigInteger.ONE);
  static final long Q61 = (1L << 61) - 1;

  private static int modulus(Value m) {
    int v = ((IntValue) m).val;
    if (v != 61 && v != 127) throw new RuntimeException("Field: unknown modulus " + v);
    return v;
  }

  private static int limbs(int m) { return m == 61 ? 5 : 10; }

  private static int[] ints(Value x, int n) {
    TupleValue t = (TupleValue) x.toTuple();
    if (t == null || t.size() != n) throw new RuntimeException("Field: not an element: " + x);
    int[] r = new int[n];
    for (int i = 0; i < n; i++) r[i] = ((IntValue) t.elems[i]).val;
    return r;
  }

  private static long get61(Value x) {
    int[] a = ints(x, 5);
    long v = 0;
    for (int i = 4; i >= 0; i--) v = (v << BITS) + a[i];
    return v;
  }

  private static Value put61(long v) {
    Value[] e = new Value[5];
    for (int i = 0; i < 5; i++) { e[i] = IntValue.gen((int) (v & MASK)); v >>>= BITS; }
    return new TupleValue(e);
  }

  private static BigInteger get127(Value x) {
    int[] a = ints(x, 10);
    BigInteger v = BigInteger.ZERO;
    for (int i = 9; i >= 0; i--) v = v.shiftLeft(BITS).add(BigInteger.valueOf(a[i]));
    return v;
  }

  private static Value put127(BigInteger v) {
    Value[] e = new Value[10];
    for (int i = 0; i < 10; i++) {
      e[i] = IntValue.gen(v.shiftRight(i * BITS).intValue() & (int) MASK);
    }
    return new TupleValue(e);
  }

  private static long add61(long a, long b) { long s = a + b; return s >= Q61 ? s - Q61 : s; }

  private static long mul61(long a, long b) {
    long hi = Math.multiplyHigh(a, b), lo = a * b;      // a, b < 2^61
    long r = (lo & Q61) + ((lo >>> 61) | (hi << 3));
    r = (r & Q61) + (r >>> 61);
    return r >= Q61 ? r - Q61 : r;
  }

  public static Value FAdd(Value m, Value x, Value y) {
    if (modulus(m) == 61) return put61(add61(get61(x), get61(y)));
    return put127(get127(x).add(get127(y)).mod(P127));
  }

  public static Value FSub(Value m, Value x, Value y) {
    if (modulus(m) == 61) {
      long a = get61(x), b = get61(y);
      return put61(a >= b ? a - b : a + (Q61 - b));
    }
    return put127(get127(x).subtract(get127(y)).mod(P127));
  }

  public static Value FNeg(Value m, Value x) {
    if (modulus(m) == 61) { long a = get61(x); return put61(a == 0 ? 0 : Q61 - a); }
    return put127(get127(x).negate().mod(P127));
  }

  public static Value FMul(Value m, Value x, Value y) {
    if (modulus(m) == 61) return put61(mul61(get61(x), get61(y)));
    return put127(get127(x).multiply(get127(y)).mod(P127));
  }

  public static Value FSum(Value m, Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new RuntimeException("Field: not a sequence");
    if (modulus(m) == 61) {
      long acc = 0;
      for (Value v : t.elems) acc = add61(acc, get61(v));
      return put61(acc);
    }
    BigInteger acc = BigInteger.ZERO;
    for (Value v : t.elems) acc = acc.add(get127(v));
    return put127(acc.mod(P127));
  }

  public static Value FDot(Value m, Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
    if (t == null || w == null || t.size() != w.size()) throw new RuntimeException("Field: bad FDot");
    if (modulus(m) == 61) {
      long acc = 0;
      for (int i = 0; i < t.size(); i++) acc = add61(acc, mul61(get61(t.elems[i]), get61(w.elems[i])));
      return put61(acc);
    }
    BigInteger acc = BigInteger.ZERO;
    for (int i = 0; i < t.size(); i++) acc = acc.add(get127(t.elems[i]).multiply(get127(w.elems[i])));
    return put127(acc.mod(P127));
  }

  public static Value FIsElem(Value m, Value x) {
    int n = limbs(modulus(m));
    int top = (m instanceof IntValue && ((IntValue) m).val == 61) ? 61 - 52 : 127 - 117;
    Value tv = x.toTuple();
    if (tv == null) return BoolValue.ValFalse;
    TupleValue t = (TupleValue) tv;
    if (t.size() != n) return BoolValue.ValFalse;
    boolean all = true;
    for (int i = 0; i < n; i++) {
      if (!(t.elems[i] instanceof IntValue)) return BoolValue.ValFalse;
      int v = ((IntValue) t.elems[i]).val;
      int max = (i == n - 1 ? (1 << top) : (1 << BITS)) - 1;
      if (v < 0 || v > max) return BoolValue.ValFalse;
      if (v != max) all = false;
    }
    return all ? BoolValue.ValFalse : BoolValue.ValTrue;
  }

  private static Value put(int m, BigInteger v) {
    BigInteger r = v.mod(m == 61 ? P61 : P127);
    return m == 61 ? put61(r.longValue()) : put127(r);
  }

  public static Value FOfInt(Value m, Value k) {
    return put(modulus(m), BigInteger.valueOf(((IntValue) k).val));
  }

  // Horner evaluation, most significant digit first
  public static Value FOfDigits(Value m, Value digits, Value radix) {
    TupleValue t = (TupleValue) digits.toTuple();
    if (t == null) throw new RuntimeException("Field: not a sequence");
    BigInteger acc = BigInteger.ZERO, r = BigInteger.valueOf(((IntValue) radix).val);
    for (Value v : t.elems) acc = acc.multiply(r).add(BigInteger.valueOf(((IntValue) v).val));
    return put(modulus(m), acc);
  }
}
