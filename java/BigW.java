import java.math.BigInteger;
import tlc2.value.impl.*;

/** Fast implementation of the B* operators of BigW.tla (digits base 2^15, least significant first). */
public class BigW {
  private static BigInteger in(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int n = t.elems.length;
    byte[] b = new byte[(n * 15 + 7) / 8 + 1]; // big endian
    long acc = 0; int bits = 0, p = b.length - 1;
    for (int i = 0; i < n; i++) {
      acc |= ((long) ((IntValue) t.elems[i]).val) << bits; bits += 15;
      while (bits >= 8) { b[p--] = (byte) acc; acc >>>= 8; bits -= 8; }
    }
    if (bits > 0) b[p--] = (byte) acc;
    return new BigInteger(b);
  }
  private static Value out(BigInteger x) {
    byte[] b = x.toByteArray();
    int n = (x.bitLength() + 14) / 15;
    Value[] e = new Value[n];
    long acc = 0; int bits = 0, p = b.length - 1;
    for (int i = 0; i < n; i++) {
      while (bits < 15) { acc |= (p >= 0 ? ((long) (b[p--] & 0xff)) : 0L) << bits; bits += 8; }
      e[i] = IntValue.gen((int) (acc & 32767)); acc >>>= 15; bits -= 15;
    }
    return new TupleValue(e);
  }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value BNat(Value n) { return out(BigInteger.valueOf(((IntValue) n).val)); }
  public static Value BAdd(Value a, Value b) { return out(in(a).add(in(b))); }
  public static Value BMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
  public static Value BLess(Value a, Value b) { return bool(in(a).compareTo(in(b)) < 0); }
  public static Value BProd(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    BigInteger r = BigInteger.ONE;
    for (Value v : t.elems) r = r.multiply(in(v));
    return out(r);
  }
  public static Value BPow(Value a, Value n) { return out(in(a).pow(((IntValue) n).val)); }
  private static final BigInteger UP = BigInteger.valueOf((1 << 28) + 1);
  public static Value BClearlyLess(Value a, Value b) {
    return bool(in(a).multiply(UP).compareTo(in(b).shiftLeft(28)) < 0);
  }
  public static Value BDot2(Value a1, Value b1, Value a2, Value b2) {
    return out(in(a1).multiply(in(b1)).add(in(a2).multiply(in(b2))));
  }
}
