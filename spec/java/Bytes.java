// TLC accelerators for the operators of Bytes.tla (same names, same meaning). The TLA+ definitions are
// the reference: spec/BytesEq.tla checks these against a copy of them.
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class Bytes {
    private static final UniqueString OFF = UniqueString.uniqueStringOf("off"), B_ = UniqueString.uniqueStringOf("b");

    private static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    private static int n(Value v) { return ((IntValue) v).val; }
    private static int at(Value[] t, int i) { return ((IntValue) t[i - 1]).val; }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static TupleValue sub(Value[] t, int i, int j) {
        if (j < i) return new TupleValue(new Value[0]);
        Value[] r = new Value[j - i + 1];
        System.arraycopy(t, i - 1, r, 0, r.length);
        return new TupleValue(r);
    }
    private static boolean match(Value[] t, int i, Value[] p) {
        if (i < 1 || i - 1 + p.length > t.length) return false;
        for (int k = 0; k < p.length; k++) if (at(t, i + k) != ((IntValue) p[k]).val) return false;
        return true;
    }
    private static int find(Value[] t, int c, int i) {
        for (int k = i; k <= t.length; k++) if (at(t, k) == c) return k;
        return 0;
    }

    public static Value StartsWith(Value t, Value p) { return bool(match(seq(t), 1, seq(p))); }
    public static Value EndsWith(Value t, Value p) {
        Value[] a = seq(t), b = seq(p);
        return bool(a.length >= b.length && match(a, a.length - b.length + 1, b));
    }
    public static Value Has(Value t, Value c) { return bool(find(seq(t), n(c), 1) != 0); }
    public static Value Find(Value t, Value c, Value i) { return IntValue.gen(find(seq(t), n(c), n(i))); }
    public static Value FindLast(Value t, Value c, Value i) {
        Value[] a = seq(t);
        for (int k = n(i); k >= 1; k--) if (at(a, k) == n(c)) return IntValue.gen(k);
        return IntValue.gen(0);
    }
    public static Value FindSub(Value t, Value p, Value i) {
        Value[] a = seq(t), b = seq(p);
        for (int k = n(i); k + b.length - 1 <= a.length; k++) if (match(a, k, b)) return IntValue.gen(k);
        return IntValue.gen(0);
    }
    private static int ws(Value[] t, int i) {
        int c = at(t, i), n = t.length;
        if (c == 32 || (c >= 9 && c <= 13)) return 1;
        if (c < 194) return 0;
        if (c == 194) return i < n && (at(t, i + 1) == 133 || at(t, i + 1) == 160) ? 2 : 0;
        if (i + 1 >= n) return 0;
        int d = at(t, i + 1), e = at(t, i + 2);
        if (c == 225 && d == 154 && e == 128) return 3;
        if (c == 226 && d == 128 && ((e >= 128 && e <= 138) || e == 168 || e == 169 || e == 175)) return 3;
        if (c == 226 && d == 129 && e == 159) return 3;
        if (c == 227 && d == 128 && e == 128) return 3;
        return 0;
    }
    private static int wsEnd(Value[] t, int j) {
        if (at(t, j) < 128) return ws(t, j) == 1 ? 1 : 0;
        if (j >= 2 && at(t, j - 1) == 194 && ws(t, j - 1) == 2) return 2;
        if (j >= 3 && at(t, j - 2) >= 225 && at(t, j - 2) <= 227 && ws(t, j - 2) == 3) return 3;
        return 0;
    }
    private static int skip(Value[] t, int i) {
        while (i <= t.length) {
            int w = ws(t, i);
            if (w == 0) break;
            i += w;
        }
        return i;
    }
    private static int back(Value[] t, int j) {
        while (j >= 1) {
            int w = wsEnd(t, j);
            if (w == 0) break;
            j -= w;
        }
        return j;
    }
    public static Value SkipWs(Value t, Value i) { return IntValue.gen(skip(seq(t), n(i))); }
    public static Value BackWs(Value t, Value j) { return IntValue.gen(back(seq(t), n(j))); }
    public static Value TrimStart(Value t) { Value[] a = seq(t); return sub(a, skip(a, 1), a.length); }
    public static Value TrimEnd(Value t) { Value[] a = seq(t); return sub(a, 1, back(a, a.length)); }
    public static Value Trim(Value t) { return TrimEnd(TrimStart(t)); }
    public static Value IsBlank(Value t) { Value[] a = seq(t); return bool(skip(a, 1) > a.length); }
    public static Value SplitFrom(Value t, Value c, Value n, Value i, Value acc) {
        Value[] a = seq(t);
        java.util.ArrayList<Value> out = new java.util.ArrayList<>(java.util.Arrays.asList(seq(acc)));
        int from = n(i), lim = n(n);
        while (true) {
            int k = lim > 0 && out.size() == lim - 1 ? 0 : find(a, n(c), from);
            if (k == 0) {
                out.add(sub(a, from, a.length));
                return new TupleValue(out.toArray(new Value[0]));
            }
            out.add(sub(a, from, k - 1));
            from = k + 1;
        }
    }
    public static Value Join(Value ps, Value sep) {
        Value[] p = seq(ps), s = seq(sep);
        java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        for (int i = 0; i < p.length; i++) {
            if (i > 0) out.addAll(java.util.Arrays.asList(s));
            out.addAll(java.util.Arrays.asList(seq(p[i])));
        }
        return new TupleValue(out.toArray(new Value[0]));
    }
    private static int lower(int c) { return c >= 65 && c <= 90 ? c + 32 : c; }
    public static Value Lower(Value t) {
        Value[] a = seq(t), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = IntValue.gen(lower(at(a, i + 1)));
        return new TupleValue(r);
    }
    public static Value SameNoCase(Value x, Value y) {
        Value[] a = seq(x), b = seq(y);
        if (a.length != b.length) return BoolValue.ValFalse;
        for (int i = 1; i <= a.length; i++) if (lower(at(a, i)) != lower(at(b, i))) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value AllDigits(Value t) {
        Value[] a = seq(t);
        for (int i = 1; i <= a.length; i++) if (at(a, i) < 48 || at(a, i) > 57) return BoolValue.ValFalse;
        return bool(a.length > 0);
    }
    public static Value LinesFrom(Value t, Value i, Value acc) {
        Value[] a = seq(t);
        java.util.ArrayList<Value> out = new java.util.ArrayList<>(java.util.Arrays.asList(seq(acc)));
        int from = n(i);
        while (from <= a.length) {
            int k = find(a, 10, from), end = k == 0 ? a.length : k - 1;
            out.add(new RecordValue(new UniqueString[] {B_, OFF}, new Value[] {sub(a, from, end), IntValue.gen(from - 1)}, false));
            from = end + 2;
        }
        return new TupleValue(out.toArray(new Value[0]));
    }
}
