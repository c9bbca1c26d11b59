package mimosaverif;

import java.nio.charset.StandardCharsets;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java evaluation of the operators declared in Real.tla. */
public final class RealOps {
    private RealOps() {
    }

    private static boolean ints(final Value a, final Value b) {
        return a instanceof IntValue && b instanceof IntValue;
    }

    private static int i(final Value a) {
        return ((IntValue) a).val;
    }

    private static double d(final Value a) {
        return RealValue.of(a);
    }

    private static Value real(final double x) {
        return new RealValue(x);
    }

    private static Value bool(final boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static Value fromLong(final long r) {
        if (r < Integer.MIN_VALUE || r > Integer.MAX_VALUE) {
            throw new RuntimeException("integer overflow in Real: " + r);
        }
        return IntValue.gen((int) r);
    }

    @TLAPlusOperator(identifier = "+", module = "Real", warn = false)
    public static Value plus(final Value a, final Value b) {
        return ints(a, b) ? fromLong((long) i(a) + i(b)) : real(d(a) + d(b));
    }

    @TLAPlusOperator(identifier = "-", module = "Real", warn = false)
    public static Value minus(final Value a, final Value b) {
        return ints(a, b) ? fromLong((long) i(a) - i(b)) : real(d(a) - d(b));
    }

    @TLAPlusOperator(identifier = "-.", module = "Real", warn = false)
    public static Value neg(final Value a) {
        return a instanceof IntValue ? fromLong(-(long) i(a)) : real(-d(a));
    }

    @TLAPlusOperator(identifier = "*", module = "Real", warn = false)
    public static Value times(final Value a, final Value b) {
        return ints(a, b) ? fromLong((long) i(a) * i(b)) : real(d(a) * d(b));
    }

    @TLAPlusOperator(identifier = "/", module = "Real", warn = false)
    public static Value div(final Value a, final Value b) {
        return real(d(a) / d(b));
    }

    @TLAPlusOperator(identifier = "^", module = "Real", warn = false)
    public static Value pow(final Value a, final Value b) {
        return real(Math.pow(d(a), d(b)));
    }

    @TLAPlusOperator(identifier = "\\div", module = "Real", warn = false)
    public static Value idiv(final Value a, final Value b) {
        return IntValue.gen(Math.floorDiv(i(a), i(b)));
    }

    @TLAPlusOperator(identifier = "%", module = "Real", warn = false)
    public static Value mod(final Value a, final Value b) {
        return IntValue.gen(Math.floorMod(i(a), i(b)));
    }

    @TLAPlusOperator(identifier = "<", module = "Real", warn = false)
    public static Value lt(final Value a, final Value b) {
        return bool(d(a) < d(b));
    }

    @TLAPlusOperator(identifier = "\\leq", module = "Real", warn = false)
    public static Value le(final Value a, final Value b) {
        return bool(d(a) <= d(b));
    }

    @TLAPlusOperator(identifier = ">", module = "Real", warn = false)
    public static Value gt(final Value a, final Value b) {
        return bool(d(a) > d(b));
    }

    @TLAPlusOperator(identifier = "\\geq", module = "Real", warn = false)
    public static Value ge(final Value a, final Value b) {
        return bool(d(a) >= d(b));
    }

    @TLAPlusOperator(identifier = "..", module = "Real", warn = false)
    public static Value range(final Value a, final Value b) {
        return new IntervalValue(i(a), i(b));
    }

    @TLAPlusOperator(identifier = "R", module = "Real", warn = false)
    public static Value lit(final Value s) {
        return real(Double.parseDouble(((StringValue) s).val.toString()));
    }

    @TLAPlusOperator(identifier = "Exp", module = "Real", warn = false)
    public static Value exp(final Value a) {
        return real(Math.exp(d(a)));
    }

    @TLAPlusOperator(identifier = "Ln", module = "Real", warn = false)
    public static Value ln(final Value a) {
        return real(Math.log(d(a)));
    }

    @TLAPlusOperator(identifier = "Atan", module = "Real", warn = false)
    public static Value atan(final Value a) {
        return real(Math.atan(d(a)));
    }

    @TLAPlusOperator(identifier = "Pi", module = "Real", warn = false)
    public static Value pi() {
        return real(Math.PI);
    }

    @TLAPlusOperator(identifier = "Abs", module = "Real", warn = false)
    public static Value abs(final Value a) {
        return a instanceof IntValue ? IntValue.gen(Math.abs(i(a))) : real(Math.abs(d(a)));
    }

    @TLAPlusOperator(identifier = "Min2", module = "Real", warn = false)
    public static Value min2(final Value a, final Value b) {
        return d(a) <= d(b) ? a : b;
    }

    @TLAPlusOperator(identifier = "Max2", module = "Real", warn = false)
    public static Value max2(final Value a, final Value b) {
        return d(a) >= d(b) ? a : b;
    }

    @TLAPlusOperator(identifier = "Floor", module = "Real", warn = false)
    public static Value floor(final Value a) {
        return a instanceof IntValue ? a : fromLong((long) Math.floor(d(a)));
    }

    @TLAPlusOperator(identifier = "Ceil", module = "Real", warn = false)
    public static Value ceil(final Value a) {
        return a instanceof IntValue ? a : fromLong((long) Math.ceil(d(a)));
    }

    @TLAPlusOperator(identifier = "IsFin", module = "Real", warn = false)
    public static Value isFin(final Value a) {
        final double x = d(a);
        return bool(!Double.isNaN(x) && !Double.isInfinite(x));
    }

    @TLAPlusOperator(identifier = "IsNaN", module = "Real", warn = false)
    public static Value isNaN(final Value a) {
        return bool(Double.isNaN(d(a)));
    }

    @TLAPlusOperator(identifier = "ToReal", module = "Real", warn = false)
    public static Value toReal(final Value a) {
        return real(d(a));
    }

    @TLAPlusOperator(identifier = "IsBool", module = "Real", warn = false)
    public static Value isBool(final Value a) {
        return bool(a instanceof BoolValue);
    }

    @TLAPlusOperator(identifier = "IsNum", module = "Real", warn = false)
    public static Value isNum(final Value a) {
        return bool(a instanceof IntValue || a instanceof RealValue);
    }

    @TLAPlusOperator(identifier = "IsInt", module = "Real", warn = false)
    public static Value isInt(final Value a) {
        return bool(a instanceof IntValue);
    }

    @TLAPlusOperator(identifier = "IsText", module = "Real", warn = false)
    public static Value isText(final Value a) {
        return bool(a instanceof StringValue);
    }

    private static Value[] values(final Value f) {
        if (f instanceof TupleValue) {
            return ((TupleValue) f).elems;
        }
        if (f instanceof RecordValue) {
            return ((RecordValue) f).values;
        }
        if (f instanceof FcnRcdValue) {
            return ((FcnRcdValue) f).values;
        }
        Value t = f.toFcnRcd();
        if (t == null) {
            t = f.toTuple();
        }
        if (t instanceof TupleValue) {
            return ((TupleValue) t).elems;
        }
        if (t instanceof RecordValue) {
            return ((RecordValue) t).values;
        }
        return ((FcnRcdValue) t).values;
    }

    /** Sum of the values of a function (0 for the empty function). */
    @TLAPlusOperator(identifier = "Sum", module = "Real", warn = false)
    public static Value sum(final Value f) {
        double s = 0;
        double c = 0; // Neumaier compensation: the order of summation does not matter
        for (final Value v : values(f)) {
            final double x = d(v);
            final double t = s + x;
            c += Math.abs(s) >= Math.abs(x) ? (s - t) + x : (x - t) + s;
            s = t;
        }
        return real(s + c);
    }

    @TLAPlusOperator(identifier = "MaxOf", module = "Real", warn = false)
    public static Value maxOf(final Value f) {
        double s = Double.NEGATIVE_INFINITY;
        for (final Value v : values(f)) {
            s = Math.max(s, d(v));
        }
        return real(s);
    }

    @TLAPlusOperator(identifier = "MinOf", module = "Real", warn = false)
    public static Value minOf(final Value f) {
        double s = Double.POSITIVE_INFINITY;
        for (final Value v : values(f)) {
            s = Math.min(s, d(v));
        }
        return real(s);
    }

    private static long mix(long z) {
        z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
        z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
        return z ^ (z >>> 31);
    }

    private static long hash(final Value v) {
        long h = 0x9e3779b97f4a7c15L;
        for (final byte b : v.toString().getBytes(StandardCharsets.UTF_8)) {
            h = mix(h + 0x9e3779b97f4a7c15L + b);
        }
        return h;
    }

    /** A pseudo-random real in [0,1), a function of its argument only. */
    @TLAPlusOperator(identifier = "Hash01", module = "Real", warn = false)
    public static Value hash01(final Value key) {
        return real((mix(hash(key)) >>> 11) * 0x1.0p-53);
    }

    /** A pseudo-random integer in 0..n-1, a function of its arguments only. */
    @TLAPlusOperator(identifier = "HashInt", module = "Real", warn = false)
    public static Value hashInt(final Value n, final Value key) {
        return IntValue.gen((int) Long.remainderUnsigned(mix(hash(key) + 1), i(n)));
    }

    /** Shortest decimal text of a number. */
    @TLAPlusOperator(identifier = "NumText", module = "Real", warn = false)
    public static Value numText(final Value a) {
        if (a instanceof IntValue) {
            return new StringValue(Integer.toString(i(a)));
        }
        return new StringValue(Double.toString(d(a)));
    }

    /** Evaluates a value completely: no function or set comprehension remains in it. */
    @TLAPlusOperator(identifier = "Force", module = "Real", warn = false)
    public static Value force(final Value v) {
        if (v instanceof tlc2.value.impl.TupleValue) {
            final Value[] in = ((tlc2.value.impl.TupleValue) v).elems;
            final Value[] out = new Value[in.length];
            for (int i = 0; i < in.length; i++) {
                out[i] = force(in[i]);
            }
            return new tlc2.value.impl.TupleValue(out);
        }
        if (v instanceof tlc2.value.impl.RecordValue) {
            final tlc2.value.impl.RecordValue r = (tlc2.value.impl.RecordValue) v;
            final Value[] out = new Value[r.values.length];
            for (int i = 0; i < out.length; i++) {
                out[i] = force(r.values[i]);
            }
            return new tlc2.value.impl.RecordValue(r.names, out, r.isNormalized());
        }
        if (v instanceof tlc2.value.impl.FcnRcdValue || v instanceof tlc2.value.impl.FcnLambdaValue) {
            final tlc2.value.impl.FcnRcdValue f = (tlc2.value.impl.FcnRcdValue) v.toFcnRcd();
            final Value[] out = new Value[f.values.length];
            for (int i = 0; i < out.length; i++) {
                out[i] = force(f.values[i]);
            }
            final tlc2.value.impl.FcnRcdValue g = f.intv != null
                    ? new tlc2.value.impl.FcnRcdValue(f.intv, out)
                    : new tlc2.value.impl.FcnRcdValue(f.domain, out, f.isNormalized());
            final Value t = g.toTuple();
            return t != null ? t : g;
        }
        if (v instanceof tlc2.value.impl.LazyValue) {
            return force((Value) ((tlc2.value.impl.LazyValue) v).toFcnRcd());
        }
        final Value s = v.toSetEnum();
        return s != null ? s : v;
    }
}
