import tlc2.value.impl.*;

/** TLC override of spec/Eager.tla: force a (nested) function/sequence/set value. */
public class Eager {
  static Value force(Value v) {
    if (v instanceof FcnLambdaValue) {
      Value t = v.toTuple();
      if (t == null) t = v.toFcnRcd();
      v = t;
    }
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      for (int i = 0; i < e.length; i++) if (e[i] instanceof FcnLambdaValue || e[i] instanceof TupleValue) e[i] = force(e[i]);
    }
    return v;
  }
  public static Value E(Value v) { return force(v); }
}
