import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluation of LinArith!Feasible by the general simplex method with exact numbers and infinitesimals. */
public class LinArith {
    /** a + b * epsilon */
    static final class E {
        final Rationals.Q a, b;
        E(Rationals.Q a, Rationals.Q b) { this.a = a; this.b = b; }
        E add(E o) { return new E(a.add(o.a), b.add(o.b)); }
        E sub(E o) { return new E(a.sub(o.a), b.sub(o.b)); }
        E mul(Rationals.Q k) { return new E(a.mul(k), b.mul(k)); }
        int cmp(E o) { int c = a.compareTo(o.a); return c != 0 ? c : b.compareTo(o.b); }
    }
    static final class C { TreeMap<String, Rationals.Q> f = new TreeMap<>(); String p; Rationals.Q r; }

    static C cons(Value v) {
        RecordValue rec = (RecordValue) v.toRcd();
        C c = new C();
        TupleValue vs = (TupleValue) rec.select(new StringValue("v")).toTuple(), cs = (TupleValue) rec.select(new StringValue("c")).toTuple();
        for (int i = 0; i < vs.elems.length; ++i) {
            c.f.merge(key(vs.elems[i]), Rationals.q(cs.elems[i]), Rationals.Q::add);
        }
        c.f.values().removeIf(q -> q.sgn() == 0);
        c.p = ((StringValue) rec.select(new StringValue("p"))).val.toString();
        c.r = Rationals.q(rec.select(new StringValue("r")));
        return c;
    }

    /** one name for each value: how a value prints depends on how it was computed */
    static String key(Value v) {
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        if (v instanceof StringValue || v instanceof BoolValue) return v.toString();
        FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
        Value[] dom = f.getDomainAsValues();
        String[] parts = new String[dom.length];
        for (int i = 0; i < dom.length; ++i) parts[i] = key(dom[i]) + ":" + key(f.values[i]);
        Arrays.sort(parts);
        return "(" + String.join(",", parts) + ")";
    }

    static boolean ground(C c) {
        int s = Rationals.Q.ZERO.compareTo(c.r);
        switch (c.p) {
            case "lt": return s < 0; case "leq": return s <= 0; case "eq": return s == 0;
            case "ne": return s != 0; case "gt": return s > 0; default: return s >= 0;
        }
    }

    static boolean simplex(List<C> list) {
        // columns: problem variables, then one slack per constraint
        TreeMap<String, Integer> col = new TreeMap<>();
        for (C c : list) for (String x : c.f.keySet()) col.putIfAbsent(x, col.size());
        int n = col.size(), m = 0;
        List<C> cs = new ArrayList<>();
        for (C c : list) { if (c.f.isEmpty()) { if (!ground(c)) return false; } else cs.add(c); }
        m = cs.size();
        int N = n + m;
        E[] lo = new E[N], hi = new E[N], val = new E[N];
        Arrays.fill(val, new E(Rationals.Q.ZERO, Rationals.Q.ZERO));
        Rationals.Q[][] row = new Rationals.Q[N][]; // rows of basic variables over all columns
        for (int i = 0; i < m; ++i) {
            C c = cs.get(i);
            Rationals.Q[] r = new Rationals.Q[N];
            Arrays.fill(r, Rationals.Q.ZERO);
            c.f.forEach((x, k) -> r[col.get(x)] = k);
            row[n + i] = r;
            E z = new E(c.r, Rationals.Q.ZERO);
            switch (c.p) {
                case "lt": hi[n + i] = new E(c.r, Rationals.Q.ONE.neg()); break;
                case "leq": hi[n + i] = z; break;
                case "eq": hi[n + i] = z; lo[n + i] = z; break;
                case "gt": lo[n + i] = new E(c.r, Rationals.Q.ONE); break;
                case "geq": lo[n + i] = z; break;
                default: throw new IllegalStateException(c.p);
            }
        }
        for (;;) {
            int b = -1; boolean up = false;
            for (int i = 0; i < N && b < 0; ++i) {
                if (row[i] == null) continue;
                if (lo[i] != null && val[i].cmp(lo[i]) < 0) { b = i; up = true; }
                else if (hi[i] != null && val[i].cmp(hi[i]) > 0) { b = i; up = false; }
            }
            if (b < 0) return true;
            int e = -1;
            for (int j = 0; j < N; ++j) {
                if (row[j] != null || row[b][j].sgn() == 0) continue;
                int s = row[b][j].sgn() * (up ? 1 : -1);
                boolean ok = s > 0 ? hi[j] == null || val[j].cmp(hi[j]) < 0 : lo[j] == null || val[j].cmp(lo[j]) > 0;
                if (ok) { e = j; break; }
            }
            if (e < 0) return false;
            E target = up ? lo[b] : hi[b];
            E theta = target.sub(val[b]).mul(Rationals.Q.ONE.div(row[b][e]));
            val[b] = target;
            val[e] = val[e].add(theta);
            for (int i = 0; i < N; ++i) if (row[i] != null && i != b) val[i] = val[i].add(theta.mul(row[i][e]));
            // pivot: e becomes basic
            Rationals.Q[] rb = row[b];
            Rationals.Q inv = Rationals.Q.ONE.div(rb[e]);
            Rationals.Q[] re = new Rationals.Q[N];
            for (int j = 0; j < N; ++j) re[j] = j == e ? Rationals.Q.ZERO : rb[j].mul(inv).neg();
            re[b] = inv;
            row[b] = null;
            for (int i = 0; i < N; ++i) {
                if (row[i] == null || row[i][e].sgn() == 0) continue;
                Rationals.Q k = row[i][e];
                for (int j = 0; j < N; ++j) row[i][j] = j == e ? Rationals.Q.ZERO : row[i][j].add(k.mul(re[j]));
            }
            row[e] = re;
        }
    }

    public static Value Feasible(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        List<C> base = new ArrayList<>(), ne = new ArrayList<>();
        for (Value v : t.elems) { C c = cons(v); (c.p.equals("ne") ? ne : base).add(c); }
        if (!simplex(base)) return BoolValue.ValFalse;
        for (C c : ne) {
            boolean ok = false;
            for (String p : new String[] {"lt", "gt"}) {
                C d = new C();
                d.f = c.f; d.r = c.r; d.p = p;
                base.add(d);
                ok = ok || simplex(base);
                base.remove(base.size() - 1);
            }
            if (!ok) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
}
