package vt;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

public class IEEE {
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a double: " + v);
    return Double.longBitsToDouble(((long) ((IntValue) t.elems[0]).val << 32) | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.doubleToRawLongBits(x);
    if (x != x) b = 0x7ff8000000000000L;
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "DAdd", module = "IEEE", warn = false) public static Value add(Value a, Value b) { return v(d(a) + d(b)); }
  @TLAPlusOperator(identifier = "DSub", module = "IEEE", warn = false) public static Value sub(Value a, Value b) { return v(d(a) - d(b)); }
  @TLAPlusOperator(identifier = "DMul", module = "IEEE", warn = false) public static Value mul(Value a, Value b) { return v(d(a) * d(b)); }
  @TLAPlusOperator(identifier = "DDiv", module = "IEEE", warn = false) public static Value div(Value a, Value b) { return v(d(a) / d(b)); }
  @TLAPlusOperator(identifier = "DNeg", module = "IEEE", warn = false) public static Value neg(Value a) { return v(-d(a)); }
  @TLAPlusOperator(identifier = "DAbs", module = "IEEE", warn = false) public static Value abs(Value a) { return v(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "DSqrt", module = "IEEE", warn = false) public static Value sqrt(Value a) { return v(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "DLt", module = "IEEE", warn = false) public static Value lt(Value a, Value b) { return b(d(a) < d(b)); }
  @TLAPlusOperator(identifier = "DLe", module = "IEEE", warn = false) public static Value le(Value a, Value b) { return b(d(a) <= d(b)); }
  @TLAPlusOperator(identifier = "DEq", module = "IEEE", warn = false) public static Value eq(Value a, Value b) { return b(d(a) == d(b)); }
  @TLAPlusOperator(identifier = "DInt", module = "IEEE", warn = false) public static Value of(Value i) { return v(((IntValue) i).val); }
  @TLAPlusOperator(identifier = "DIsNaN", module = "IEEE", warn = false) public static Value isnan(Value a) { return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier = "DFinite", module = "IEEE", warn = false) public static Value fin(Value a) { return b(Double.isFinite(d(a))); }
  @TLAPlusOperator(identifier = "DStr", module = "IEEE", warn = false) public static Value str(Value a) { return new StringValue(Double.toString(d(a))); }
  @TLAPlusOperator(identifier = "DParse", module = "IEEE", warn = false) public static Value parse(Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
}
