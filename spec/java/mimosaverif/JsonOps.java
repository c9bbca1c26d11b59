package mimosaverif;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.List;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.ModelValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Exchange of values with the harness: JSON with reals (numbers written with '.' or 'e'). */
public final class JsonOps {
    private JsonOps() {
    }

    @TLAPlusOperator(identifier = "ReadJson", module = "Real", warn = false)
    public static Value readJson(final Value file) throws IOException {
        final Path p = Paths.get(((StringValue) file).val.toString());
        return new Parser(new String(Files.readAllBytes(p), StandardCharsets.UTF_8)).parse();
    }

    @TLAPlusOperator(identifier = "WriteJson", module = "Real", warn = false)
    public static Value writeJson(final Value file, final Value v) throws IOException {
        final StringBuilder sb = new StringBuilder();
        write(sb, v);
        sb.append('\n');
        Files.write(Paths.get(((StringValue) file).val.toString()), sb.toString().getBytes(StandardCharsets.UTF_8));
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "Env", module = "Real", warn = false)
    public static Value env(final Value name, final Value dflt) {
        final String s = System.getenv(((StringValue) name).val.toString());
        return s == null ? dflt : new StringValue(s);
    }

    @TLAPlusOperator(identifier = "EnvInt", module = "Real", warn = false)
    public static Value envInt(final Value name, final Value dflt) {
        final String s = System.getenv(((StringValue) name).val.toString());
        return s == null ? dflt : IntValue.gen(Integer.parseInt(s.trim()));
    }

    /** The characters of a text, as a sequence of texts of length one. */
    @TLAPlusOperator(identifier = "Chars", module = "Real", warn = false)
    public static Value chars(final Value text) {
        final int[] cps = ((StringValue) text).val.toString().codePoints().toArray();
        final Value[] out = new Value[cps.length];
        for (int i = 0; i < cps.length; i++) {
            out[i] = new StringValue(new String(Character.toChars(cps[i])));
        }
        return new TupleValue(out);
    }

    /** Whether a text is a decimal number ("int": an integer without fraction or exponent). */
    @TLAPlusOperator(identifier = "IsNumText", module = "Real", warn = false)
    public static Value isNumText(final Value text, final Value kind) {
        final String s = ((StringValue) text).val.toString().trim();
        final boolean integer = ((StringValue) kind).val.toString().equals("int");
        final boolean b = s.matches(integer ? "[+-]?[0-9]+" : "[+-]?([0-9]+[.]?[0-9]*|[.][0-9]+)([eE][+-]?[0-9]+)?");
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static void quote(final StringBuilder sb, final String s) {
        sb.append('"');
        for (int i = 0; i < s.length(); i++) {
            final char c = s.charAt(i);
            switch (c) {
            case '"':
                sb.append("\\\"");
                break;
            case '\\':
                sb.append("\\\\");
                break;
            case '\n':
                sb.append("\\n");
                break;
            case '\t':
                sb.append("\\t");
                break;
            case '\r':
                sb.append("\\r");
                break;
            default:
                if (c < 0x20) {
                    sb.append(String.format("\\u%04x", (int) c));
                } else {
                    sb.append(c);
                }
            }
        }
        sb.append('"');
    }

    private static String key(final Value v) {
        if (v instanceof StringValue) {
            return ((StringValue) v).val.toString();
        }
        return v.toString();
    }

    private static void list(final StringBuilder sb, final Iterable<Value> vs) {
        sb.append('[');
        boolean first = true;
        for (final Value v : vs) {
            if (!first) {
                sb.append(',');
            }
            first = false;
            write(sb, v);
        }
        sb.append(']');
    }

    static void write(final StringBuilder sb, final Value v) {
        if (v instanceof BoolValue) {
            sb.append(((BoolValue) v).val);
        } else if (v instanceof IntValue) {
            sb.append(((IntValue) v).val);
        } else if (v instanceof RealValue) {
            final double x = ((RealValue) v).val;
            if (Double.isNaN(x)) {
                sb.append("NaN");
            } else if (Double.isInfinite(x)) {
                sb.append(x > 0 ? "Infinity" : "-Infinity");
            } else {
                sb.append(x);
            }
        } else if (v instanceof StringValue) {
            quote(sb, ((StringValue) v).val.toString());
        } else if (v instanceof ModelValue) {
            quote(sb, v.toString());
        } else if (v instanceof TupleValue) {
            list(sb, java.util.Arrays.asList(((TupleValue) v).elems));
        } else if (v instanceof RecordValue) {
            final RecordValue r = (RecordValue) v;
            sb.append('{');
            for (int k = 0; k < r.names.length; k++) {
                if (k > 0) {
                    sb.append(',');
                }
                quote(sb, r.names[k].toString());
                sb.append(':');
                write(sb, r.values[k]);
            }
            sb.append('}');
        } else if (v instanceof FcnRcdValue) {
            final FcnRcdValue f = (FcnRcdValue) v;
            final Value[] dom = f.getDomainAsValues();
            final Value tup = f.toTuple();
            if (tup instanceof TupleValue && dom.length > 0) {
                write(sb, tup);
                return;
            }
            sb.append('{');
            for (int k = 0; k < dom.length; k++) {
                if (k > 0) {
                    sb.append(',');
                }
                quote(sb, key(dom[k]));
                sb.append(':');
                write(sb, f.values[k]);
            }
            sb.append('}');
        } else {
            final Value s = v.toSetEnum();
            if (s instanceof SetEnumValue) {
                final SetEnumValue se = (SetEnumValue) s.normalize();
                final List<Value> els = new ArrayList<>();
                for (int k = 0; k < se.elems.size(); k++) {
                    els.add(se.elems.elementAt(k));
                }
                list(sb, els);
                return;
            }
            final Value t = v.toTuple();
            if (t instanceof TupleValue) {
                write(sb, t);
                return;
            }
            final Value f = v.toFcnRcd();
            if (f != null && f != v) {
                write(sb, f);
                return;
            }
            throw new RuntimeException("Cannot write as JSON: " + v.getClass() + " " + v);
        }
    }

    private static final class Parser {
        private final String s;
        private int p = 0;

        Parser(final String s) {
            this.s = s;
        }

        Value parse() {
            final Value v = value();
            ws();
            if (p != s.length()) {
                throw err("trailing text");
            }
            return v;
        }

        private RuntimeException err(final String m) {
            return new RuntimeException("JSON: " + m + " at offset " + p);
        }

        private void ws() {
            while (p < s.length() && Character.isWhitespace(s.charAt(p))) {
                p++;
            }
        }

        private boolean eat(final String w) {
            if (s.startsWith(w, p)) {
                p += w.length();
                return true;
            }
            return false;
        }

        private Value value() {
            ws();
            final char c = s.charAt(p);
            if (c == '{') {
                p++;
                final List<UniqueString> ks = new ArrayList<>();
                final List<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(p) == '}') {
                    p++;
                    return new FcnRcdValue(new Value[0], new Value[0], true);
                }
                while (true) {
                    ws();
                    ks.add(UniqueString.uniqueStringOf(str()));
                    ws();
                    if (s.charAt(p++) != ':') {
                        throw err("expected :");
                    }
                    vs.add(value());
                    ws();
                    final char e = s.charAt(p++);
                    if (e == '}') {
                        break;
                    }
                    if (e != ',') {
                        throw err("expected , or }");
                    }
                }
                return new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false).normalize();
            }
            if (c == '[') {
                p++;
                final List<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(p) == ']') {
                    p++;
                    return new TupleValue(new Value[0]);
                }
                while (true) {
                    vs.add(value());
                    ws();
                    final char e = s.charAt(p++);
                    if (e == ']') {
                        break;
                    }
                    if (e != ',') {
                        throw err("expected , or ]");
                    }
                }
                return new TupleValue(vs.toArray(new Value[0]));
            }
            if (c == '"') {
                return new StringValue(str());
            }
            if (eat("true")) {
                return BoolValue.ValTrue;
            }
            if (eat("false")) {
                return BoolValue.ValFalse;
            }
            if (eat("NaN")) {
                return new RealValue(Double.NaN);
            }
            if (eat("Infinity")) {
                return new RealValue(Double.POSITIVE_INFINITY);
            }
            if (eat("-Infinity")) {
                return new RealValue(Double.NEGATIVE_INFINITY);
            }
            final int b = p;
            boolean real = false;
            while (p < s.length() && "+-0123456789.eE".indexOf(s.charAt(p)) >= 0) {
                final char x = s.charAt(p);
                if (x == '.' || x == 'e' || x == 'E') {
                    real = true;
                }
                p++;
            }
            final String n = s.substring(b, p);
            if (n.isEmpty()) {
                throw err("unexpected character " + c);
            }
            if (!real) {
                try {
                    return IntValue.gen(Integer.parseInt(n));
                } catch (final NumberFormatException e) {
                    return new RealValue(Double.parseDouble(n));
                }
            }
            return new RealValue(Double.parseDouble(n));
        }

        private String str() {
            if (s.charAt(p++) != '"') {
                throw err("expected string");
            }
            final StringBuilder sb = new StringBuilder();
            while (true) {
                final char c = s.charAt(p++);
                if (c == '"') {
                    return sb.toString();
                }
                if (c == '\\') {
                    final char e = s.charAt(p++);
                    switch (e) {
                    case 'n':
                        sb.append('\n');
                        break;
                    case 't':
                        sb.append('\t');
                        break;
                    case 'r':
                        sb.append('\r');
                        break;
                    case 'b':
                        sb.append('\b');
                        break;
                    case 'f':
                        sb.append('\f');
                        break;
                    case 'u':
                        sb.append((char) Integer.parseInt(s.substring(p, p + 4), 16));
                        p += 4;
                        break;
                    default:
                        sb.append(e);
                    }
                } else {
                    sb.append(c);
                }
            }
        }
    }
}
