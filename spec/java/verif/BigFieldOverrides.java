package verif;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Accelerator for the operators of BigField.tla (base 2^24 limbs, least significant first). */
public class BigFieldOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {BigFieldOverrides.class};
  }

  private static TupleValue tuple(Value v) {
    return (TupleValue) v.toTuple();
  }

  private static BigInteger big(Value v) {
    Value[] e = tuple(v).elems;
    int n = e.length;
    byte[] b = new byte[3 * n];
    for (int i = 0; i < n; i++) {
      int x = ((IntValue) e[i]).val;
      int o = 3 * (n - 1 - i);
      b[o] = (byte) (x >> 16);
      b[o + 1] = (byte) (x >> 8);
      b[o + 2] = (byte) x;
    }
    return new BigInteger(1, b);
  }

  private static int len(Value v) {
    return tuple(v).elems.length;
  }

  private static Value val(BigInteger x, int n) {
    byte[] b = x.toByteArray();
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) {
      int w = 0;
      for (int k = 2; k >= 0; k--) {
        int o = b.length - 1 - (3 * i + k);
        w = (w << 8) | (o >= 0 ? (b[o] & 0xff) : 0);
      }
      e[i] = IntValue.gen(w);
    }
    return new TupleValue(e);
  }

  @TLAPlusOperator(identifier = "BAdd", module = "BigField", warn = false)
  public static Value bAdd(final Value a, final Value b, final Value p) {
    BigInteger m = big(p), s = big(a).add(big(b));
    return val(s.compareTo(m) >= 0 ? s.subtract(m) : s, len(p));
  }

  @TLAPlusOperator(identifier = "BSub", module = "BigField", warn = false)
  public static Value bSub(final Value a, final Value b, final Value p) {
    BigInteger s = big(a).subtract(big(b));
    return val(s.signum() < 0 ? s.add(big(p)) : s, len(p));
  }

  @TLAPlusOperator(identifier = "BMul", module = "BigField", warn = false)
  public static Value bMul(final Value a, final Value b, final Value p) {
    return val(big(a).multiply(big(b)).mod(big(p)), len(p));
  }

  @TLAPlusOperator(identifier = "BPow", module = "BigField", warn = false)
  public static Value bPow(final Value a, final Value e, final Value p) {
    return val(big(a).modPow(big(e), big(p)), len(p));
  }

  @TLAPlusOperator(identifier = "BInv", module = "BigField", warn = false)
  public static Value bInv(final Value a, final Value p) {
    BigInteger m = big(p);
    return val(big(a).modPow(m.subtract(BigInteger.TWO), m), len(p));
  }

  @TLAPlusOperator(identifier = "BRedBits", module = "BigField", warn = false)
  public static Value bRedBits(final Value bits, final Value p) {
    BigInteger acc = BigInteger.ZERO;
    Value[] e = tuple(bits).elems;
    int n = e.length;
    for (int i = 0; i < n; i++) {
      if (((IntValue) e[i]).val == 1) {
        acc = acc.setBit(n - 1 - i);
      }
    }
    return val(acc.mod(big(p)), len(p));
  }

  @TLAPlusOperator(identifier = "BLess", module = "BigField", warn = false)
  public static Value bLess(final Value a, final Value b) {
    return big(a).compareTo(big(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "BAxpy", module = "BigField", warn = false)
  public static Value bAxpy(final Value c, final Value x, final Value y, final Value p) {
    BigInteger m = big(p), k = big(c);
    Value[] xs = tuple(x).elems, ys = tuple(y).elems;
    int l = len(p);
    Value[] r = new Value[xs.length];
    for (int i = 0; i < r.length; i++) {
      r[i] = val(big(xs[i]).add(k.multiply(big(ys[i]))).mod(m), l);
    }
    return new TupleValue(r);
  }
}
