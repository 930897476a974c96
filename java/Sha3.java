// TLC module override for Permute of spec/Sha3.tla (compared with Sha3Pure by MCSha3).
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Sha3 {
  private static final int[] ROT = new int[25];
  private static final long[] RC = new long[24];
  static {
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      ROT[5 * y + x] = ((t + 1) * (t + 2) / 2) % 64;
      int ny = (2 * x + 3 * y) % 5;
      x = y;
      y = ny;
    }
    int r = 1;
    for (int i = 0; i < 24; i++)
      for (int j = 0; j < 7; j++) {
        if ((r & 1) != 0) RC[i] |= 1L << ((1 << j) - 1);
        r <<= 1;
        if ((r & 256) != 0) r ^= 0x171;
      }
  }

  private static TupleValue tup(Value v, int n) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.size() != n) throw new RuntimeException("Sha3: bad shape: " + v);
    return t;
  }

  public static Value Permute(Value state) {
    long[] a = new long[25], b = new long[25], c = new long[5];
    TupleValue s = tup(state, 25);
    for (int i = 0; i < 25; i++) {
      TupleValue l = tup(s.elems[i], 4);
      for (int j = 3; j >= 0; j--) a[i] = (a[i] << 16) | ((IntValue) l.elems[j]).val;
    }
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 5; y++) a[5 * y + x] ^= d;
      }
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) b[5 * ((2 * x + 3 * y) % 5) + y] = Long.rotateLeft(a[5 * y + x], ROT[5 * y + x]);
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) a[5 * y + x] = b[5 * y + x] ^ (~b[5 * y + (x + 1) % 5] & b[5 * y + (x + 2) % 5]);
      a[0] ^= RC[r];
    }
    Value[] out = new Value[25];
    for (int i = 0; i < 25; i++) {
      Value[] l = new Value[4];
      for (int j = 0; j < 4; j++) l[j] = IntValue.gen((int) ((a[i] >>> (16 * j)) & 65535));
      out[i] = new TupleValue(l);
    }
    return new TupleValue(out);
  }
}
