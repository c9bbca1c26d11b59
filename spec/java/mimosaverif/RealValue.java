package mimosaverif;

import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** A real number, evaluated by TLC in double precision (module Real). */
public final class RealValue extends Value {
    private static final long serialVersionUID = 1L;
    public final double val;

    public RealValue(final double v) {
        this.val = v == 0.0 ? 0.0 : v; // no negative zero
    }

    public static double of(final Value v) {
        if (v instanceof RealValue) {
            return ((RealValue) v).val;
        }
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        throw new RuntimeException("Attempted to use a non-number in real arithmetic: " + v);
    }

    @Override
    public byte getKind() {
        return REALVALUE;
    }

    @Override
    public int compareTo(final Object o) {
        if (o instanceof RealValue) {
            return Double.compare(val, ((RealValue) o).val);
        }
        if (o instanceof IntValue) {
            return Double.compare(val, ((IntValue) o).val);
        }
        throw new RuntimeException("Attempted to compare real " + val + " with " + o);
    }

    @Override
    public boolean equals(final Object o) {
        if (o instanceof RealValue) {
            return val == ((RealValue) o).val;
        }
        if (o instanceof IntValue) {
            return val == ((IntValue) o).val;
        }
        return false;
    }

    @Override
    public boolean member(final Value elem) {
        throw new RuntimeException("A real is not a set");
    }

    @Override
    public boolean isFinite() {
        throw new RuntimeException("A real is not a set");
    }

    @Override
    public Value takeExcept(final ValueExcept ex) {
        if (ex.idx < ex.path.length) {
            throw new RuntimeException("EXCEPT applied to a real");
        }
        return ex.value;
    }

    @Override
    public Value takeExcept(final ValueExcept[] exs) {
        if (exs.length == 0) {
            return this;
        }
        throw new RuntimeException("EXCEPT applied to a real");
    }

    @Override
    public int size() {
        throw new RuntimeException("A real is not a set");
    }

    @Override
    public boolean mutates() {
        return false;
    }

    @Override
    public boolean isNormalized() {
        return true;
    }

    @Override
    public Value normalize() {
        return this;
    }

    @Override
    public boolean isDefined() {
        return true;
    }

    @Override
    public IValue deepCopy() {
        return this;
    }

    @Override
    public long fingerPrint(long fp) {
        long bits = Double.doubleToLongBits(val);
        fp = tlc2.util.FP64.Extend(fp, REALVALUE);
        return tlc2.util.FP64.Extend(fp, bits);
    }

    @Override
    public IValue permute(final IMVPerm perm) {
        return this;
    }

    @Override
    public StringBuffer toString(final StringBuffer sb, final int offset, final boolean swallow) {
        return sb.append(val);
    }
}
