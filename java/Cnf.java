import java.util.*;
import tlc2.value.impl.*;

/** Evaluation of Cnf!Satisfiable: backtracking with unit propagation, no learning. */
public class Cnf {
    int[][] cls;
    int[][] occ;       // clauses in which a literal occurs
    int[] cntTrue, cntFalse;
    byte[] val;
    int n;
    int[] trail;
    int top;

    static int code(int l) { return l > 0 ? 2 * l : -2 * l + 1; }

    boolean assign(int l) {
        // propagates; false on conflict (the caller undoes the trail)
        int head = top;
        if (val[Math.abs(l)] != 0) return (val[Math.abs(l)] > 0) == (l > 0);
        set(l);
        while (head < top) {
            int m = trail[head++];
            for (int c : occ[code(m)]) cntTrue[c]++;
            boolean bad = false;
            for (int c : occ[code(-m)]) { cntFalse[c]++; if (cntFalse[c] == cls[c].length && cntTrue[c] == 0) bad = true; }
            applied = head;
            if (bad) return false;
            for (int c : occ[code(-m)]) {
                if (cntTrue[c] == 0 && cntFalse[c] == cls[c].length - 1) {
                    int u = 0;
                    boolean sat = false;
                    for (int x : cls[c]) { byte v = val[Math.abs(x)]; if (v == 0) u = x; else if ((v > 0) == (x > 0)) sat = true; }
                    if (!sat && u != 0) set(u);
                    else if (!sat) return false;
                }
            }
        }
        return true;
    }
    int applied;
    void set(int l) { val[Math.abs(l)] = (byte) (l > 0 ? 1 : -1); trail[top++] = l; }
    void undo(int mark) {
        while (top > mark) {
            int m = trail[--top];
            val[Math.abs(m)] = 0;
            if (top < applied) {
                for (int c : occ[code(m)]) cntTrue[c]--;
                for (int c : occ[code(-m)]) cntFalse[c]--;
            }
        }
        applied = Math.min(applied, top);
    }

    boolean solve() {
        int best = 0, bestScore = -1;
        int[] score = new int[n + 1];
        boolean open = false;
        for (int i = 0; i < cls.length; ++i) {
            if (cntTrue[i] > 0) continue;
            open = true;
            int free = cls[i].length - cntFalse[i];
            int w = free <= 2 ? 16 : free == 3 ? 4 : 1;
            for (int x : cls[i]) if (val[Math.abs(x)] == 0) score[Math.abs(x)] += w;
        }
        if (!open) return true;
        for (int v = 1; v <= n; ++v) if (val[v] == 0 && score[v] > bestScore) { best = v; bestScore = score[v]; }
        for (int sgn = 1; sgn >= -1; sgn -= 2) {
            int mark = top;
            if (assign(sgn * best) && solve()) return true;
            undo(mark);
        }
        return false;
    }

    public static Value Satisfiable(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Cnf s = new Cnf();
        List<int[]> list = new ArrayList<>();
        for (Value c : t.elems) {
            TupleValue ct = (TupleValue) c.toTuple();
            TreeSet<Integer> set = new TreeSet<>();
            boolean taut = false;
            for (Value x : ct.elems) { int l = ((IntValue) x).val; set.add(l); if (set.contains(-l)) taut = true; s.n = Math.max(s.n, Math.abs(l)); }
            if (taut) continue;
            if (set.isEmpty()) return BoolValue.ValFalse;
            list.add(set.stream().mapToInt(i -> i).toArray());
        }
        s.cls = list.toArray(new int[0][]);
        s.cntTrue = new int[s.cls.length];
        s.cntFalse = new int[s.cls.length];
        s.val = new byte[s.n + 1];
        s.trail = new int[s.n + 1];
        List<List<Integer>> occ = new ArrayList<>();
        for (int i = 0; i < 2 * s.n + 2; ++i) occ.add(new ArrayList<>());
        for (int i = 0; i < s.cls.length; ++i) for (int x : s.cls[i]) occ.get(code(x)).add(i);
        s.occ = new int[occ.size()][];
        for (int i = 0; i < s.occ.length; ++i) s.occ[i] = occ.get(i).stream().mapToInt(k -> k).toArray();
        for (int[] c : s.cls) if (c.length == 1 && !s.assign(c[0])) return BoolValue.ValFalse;
        return s.solve() ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
