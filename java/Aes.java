// TLC module override for spec/Aes.tla (compared with AesPure by MCAes).
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Aes {
  private static byte[] bytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.size() != 16) throw new RuntimeException("Aes: not a block: " + v);
    byte[] r = new byte[16];
    for (int i = 0; i < 16; i++) {
      int b = ((IntValue) t.elems[i]).val;
      if (b < 0 || b > 255) throw new RuntimeException("Aes: not a byte: " + b);
      r[i] = (byte) b;
    }
    return r;
  }

  public static Value AesEncrypt(Value key, Value block) {
    try {
      Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
      c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(bytes(key), "AES"));
      byte[] o = c.doFinal(bytes(block));
      Value[] e = new Value[16];
      for (int i = 0; i < 16; i++) e[i] = IntValue.gen(o[i] & 255);
      return new TupleValue(e);
    } catch (java.security.GeneralSecurityException x) {
      throw new RuntimeException(x);
    }
  }
}
