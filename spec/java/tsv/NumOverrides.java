package tsv;

import java.math.BigDecimal;
import java.math.RoundingMode;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluates the operators of Num.tla: IEEE doubles written as strings. */
public class NumOverrides implements ITLCOverrides {

    @Override
    public Class[] get() { return new Class[] { NumOverrides.class }; }

    static double d(Value v) {
        String t = ((StringValue) v).val.toString();
        switch (t) {
            case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
            case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
            case "NaN": return Double.NaN;
            default: return Double.parseDouble(t);
        }
    }
    static Value s(double x) { return new StringValue(Double.toString(x)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "NInt", module = "Num", warn = false)
    public static Value nint(IntValue a) { return s(a.val); }
    @TLAPlusOperator(identifier = "NRead", module = "Num", warn = false)
    public static Value nread(Value a) { return s(d(a)); }
    @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
    public static Value nadd(Value x, Value y) { return s(d(x) + d(y)); }
    @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
    public static Value nsub(Value x, Value y) { return s(d(x) - d(y)); }
    @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
    public static Value nmul(Value x, Value y) { return s(d(x) * d(y)); }
    @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
    public static Value ndiv(Value x, Value y) { return s(d(x) / d(y)); }
    @TLAPlusOperator(identifier = "NRem", module = "Num", warn = false)
    public static Value nrem(Value x, Value y) { return s(d(x) % d(y)); }
    @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
    public static Value nneg(Value x) { return s(-d(x)); }
    @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
    public static Value nabs(Value x) { return s(Math.abs(d(x))); }
    @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
    public static Value nmax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
    @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false)
    public static Value nmin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
    @TLAPlusOperator(identifier = "NSin", module = "Num", warn = false)
    public static Value nsin(Value x) { return s(Math.sin(d(x))); }
    @TLAPlusOperator(identifier = "NExp", module = "Num", warn = false)
    public static Value nexp(Value x) { return s(Math.exp(d(x))); }
    @TLAPlusOperator(identifier = "NLog", module = "Num", warn = false)
    public static Value nlog(Value x) { return s(Math.log(d(x))); }
    @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
    public static Value nle(Value x, Value y) { return b(d(x) <= d(y)); }
    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value nlt(Value x, Value y) { return b(d(x) < d(y)); }
    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value neq(Value x, Value y) { return b(d(x) == d(y)); }
    @TLAPlusOperator(identifier = "NFinite", module = "Num", warn = false)
    public static Value nfinite(Value x) { return b(Double.isFinite(d(x))); }
    @TLAPlusOperator(identifier = "NFix9", module = "Num", warn = false)
    public static Value nfix9(Value x) {
        double v = d(x);
        if (!Double.isFinite(v)) return s(v);
        String t = new BigDecimal(v).setScale(9, RoundingMode.HALF_EVEN).toPlainString();
        if (t.charAt(0) != '-' && (v < 0 || (v == 0 && 1 / v < 0))) t = "-" + t;
        return new StringValue(t);
    }
}
