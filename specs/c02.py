"""C02 fermionic signs: the three parity functions equal their pair-counting definition."""
import z3
from tatv.engine import *
from tatv.lib import *

TU = "parity.cpp"
ROOTS = r"TAT::fermi_symmetry::.*"


def fermi_of(vc, symt):
    so = vc.ty.sort(symt)
    return lambda t: vc.get(t, ("f", "fermi"))


def seq_arg(vc, name, tkey):
    return vc.symbolic(name, tkey)


def spec_reverse(vc, f):
    ps = f["params"]
    tk = [vc.ty.strip(p["type"]) for p in ps]
    st = {}

    def body():
        vc.reset()
        syms, rev, val = [vc.symbolic(n, t) for n, t in zip(("symmetries", "reverse", "valid"), tk)]
        n = ln(syms)
        vc.assume(z3.And(n <= 65534, ln(rev) == n, ln(val) == n))
        fe = fermi_of(vc, vc.ty.elem(tk[0]))
        if "P" not in st:
            st["P"] = define_prefix(vc, "revpar_" + str(id(f)), Bool, z3.BoolVal(False), lambda k, p: z3.Xor(p, z3.And(z3.Select(arr(rev), k), z3.Select(arr(val), k), odd(fe(z3.Select(arr(syms), k))))))
        P = st["P"]
        st["n"] = n
        r = vc.invoke(f, [vc.new_lv(syms), vc.new_lv(rev), vc.new_lv(val)], None, "")
        vc.prove("post: sign == parity of the odd legs that are reversed and valid", vc.tobool(r) == P(n))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def cands(vc, sc):
        out = []
        P, n = st["P"], st["n"]
        for bn, b, bm in sc.bools():
            for i_n, i, im in sc.ints():
                out.append(("%s==P(%s)" % (bn, i_n), lambda vc, b=b, i=i: b(vc) == P(i(vc))))
                out.append(("%s^P(%s)==P(n)" % (bn, i_n), lambda vc, b=b, i=i: z3.Xor(b(vc), P(i(vc))) == P(n)))
        return out

    vc.cand_gens = [generic_candidates, cands]
    vc.explore(body)


def spec_transpose(vc, f):
    ps = f["params"]
    tk = [vc.ty.strip(p["type"]) for p in ps]
    st = {}

    def body():
        vc.reset()
        syms, plan = [vc.symbolic(n, t) for n, t in zip(("symmetries", "plan"), tk)]
        n = ln(syms)
        vc.assume(z3.And(n <= 65534, ln(plan) == n))
        fe = fermi_of(vc, vc.ty.elem(tk[0]))
        o = lambda k: odd(fe(z3.Select(arr(syms), k)))
        pl = lambda k: z3.Select(arr(plan), k)
        st["n"] = n
        if "T" not in st:
            R = z3.Function("row_%d" % id(f), Int, Int, Bool)
            i, j = z3.Ints("i j")
            # R(i,j): parity of inverted odd pairs (i,j') with i<j'<j
            vc.add_axiom(z3.ForAll([i, j], z3.Implies(j <= i + 1, R(i, j) == False), patterns=[R(i, j)]), "row0", {R.name()})
            vc.add_axiom(z3.ForAll([i, j], z3.Implies(j > i + 1, R(i, j) == z3.Xor(R(i, j - 1), z3.And(pl(i) > pl(j - 1), o(i), o(j - 1)))), patterns=[R(i, j)]), "row", {R.name()})
            T = define_prefix(vc, "tpar_%d" % id(f), Bool, z3.BoolVal(False), lambda k, p: z3.Xor(p, R(k, n)))
            st["T"], st["R"] = T, R
        r = vc.invoke(f, [vc.new_lv(syms), vc.new_lv(plan)], None, "")
        vc.prove("post: sign == parity of the inverted pairs of odd legs", vc.tobool(r) == st["T"](n))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def cands(vc, sc):
        out = []
        T, R, n = st["T"], st["R"], st["n"]
        ints = sc.ints()
        for bn, b, bm in sc.bools():
            for i_n, i, im in ints:
                out.append(("%s==T(%s)" % (bn, i_n), lambda vc, b=b, i=i: b(vc) == T(i(vc))))
                for j_n, j, jm in ints:
                    if j_n != i_n:
                        out.append(("%s==T(%s)^R(%s,%s)" % (bn, i_n, i_n, j_n), lambda vc, b=b, i=i, j=j: b(vc) == z3.Xor(T(i(vc)), R(i(vc), j(vc)))))
                        out.append(("%s>%s" % (j_n, i_n), lambda vc, i=i, j=j: j(vc) > i(vc)))
        return out

    vc.cand_gens = [generic_candidates, cands]
    vc.explore(body)


def spec_split_merge(vc, f):
    ps = f["params"]
    tk = [vc.ty.strip(p["type"]) for p in ps]
    st = {}

    def body():
        vc.reset()
        syms, flag, val = [vc.symbolic(n, t) for n, t in zip(("symmetries", "flag", "valid"), tk)]
        n, g = ln(syms), ln(val)
        fe = fermi_of(vc, vc.ty.elem(tk[0]))
        s = lambda k: fe(z3.Select(arr(syms), k))
        fl = lambda k: z3.Select(arr(flag), k)
        start = z3.Function("start_%d" % id(f), Int, Int)
        A = z3.Function("abs_%d" % id(f), Int, Int)
        i, j, k = z3.Ints("i j k")
        vc.assume(z3.And(n <= 65534, g <= 65534, ln(flag) == n))
        # legs are grouped contiguously and in group order: group q is [start(q), start(q+1))
        vc.assume(z3.And(start(0) == 0, start(g) == n))
        vc.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g), z3.And(start(k) <= start(k + 1), start(k + 1) <= n, start(k) >= 0)), patterns=[start(k)]))
        vc.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= k, k < g, 0 <= i, i < n), (fl(i) == k) == z3.And(start(k) <= i, i < start(k + 1))), patterns=[z3.MultiPattern(start(k), fl(i))]))
        vc.assume(z3.ForAll([i], z3.And(s(i) >= -32768, s(i) <= 32767), patterns=[s(i)]))
        vc.assume(A(n) <= 32767)
        if "S" not in st:
            absx = lambda x: z3.If(x >= 0, x, -x)
            nm = "_%d" % id(f)
            S = z3.Function("S" + nm, Int, Int, Int)
            Q = z3.Function("Q" + nm, Int, Int, Int)
            H = z3.Function("H" + nm, Int, Int, Int)
            OC = z3.Function("OC" + nm, Int, Int, Bool)
            PP = z3.Function("PP" + nm, Int, Int, Bool)
            for F, b0, step in (
                (S, I(0), lambda i, j: S(i, j - 1) + s(j - 1)),
                (Q, I(0), lambda i, j: Q(i, j - 1) + s(j - 1) * s(j - 1)),
                (H, I(0), lambda i, j: H(i, j - 1) + s(j - 1) * S(i, j - 1)),
                (OC, z3.BoolVal(False), lambda i, j: z3.Xor(OC(i, j - 1), odd(s(j - 1)))),
                (PP, z3.BoolVal(False), lambda i, j: z3.Xor(PP(i, j - 1), z3.And(odd(s(j - 1)), OC(i, j - 1)))),
            ):
                vc.add_axiom(z3.ForAll([i], F(i, i) == b0, patterns=[F(i, i)]), F.name() + "0", {F.name()})
                vc.add_axiom(z3.ForAll([i, j], z3.Implies(j > i, F(i, j) == step(i, j)), patterns=[F(i, j)]), F.name(), {F.name()})
            vc.add_axiom(z3.And(A(0) == 0, z3.ForAll([j], z3.Implies(j > 0, A(j) == A(j - 1) + absx(s(j - 1))), patterns=[A(j)])), "A", {A.name()})
            GP = define_prefix(vc, "gpar" + nm, Bool, z3.BoolVal(False), lambda k, p: z3.Xor(p, z3.And(z3.Select(arr(val), k), PP(start(k), start(k + 1)))))
            b = z3.Int("b")
            # the square-sum formula of a group equals the pair parity (b = first leg of the group)
            x, y, u, v, p, q = z3.Ints("x y u v p q")
            pp = lambda x, y: ((x * y) % 2 == 1) == z3.And(x % 2 == 1, y % 2 == 1)
            okp = lemma(vc, "product-parity (expanded)", z3.ForAll([u, v, p, q], (2 * u + p) * (2 * v + q) == 2 * (2 * u * v + u * q + v * p) + p * q), axiom=False)
            w = z3.Int("w")
            okp = okp and lemma(vc, "product-parity", z3.Implies(z3.And(x == 2 * u + p, y == 2 * v + q, 0 <= p, p <= 1, 0 <= q, q <= 1, x * y == 2 * w + p * q), pp(x, y)), axiom=False)
            kk = z3.Int("k")
            ok = induct(vc, "sum-parity", lambda m: (S(b, b + m) % 2 == 1) == OC(b, b + m), 0)
            ok = induct(vc, "square-sum", lambda m: S(b, b + m) * S(b, b + m) - Q(b, b + m) == 2 * H(b, b + m), 0) and ok
            vc.axioms = [a for a in vc.axioms if a[2] not in ("square-sum", "sum-parity")]
            if ok and okp:
                ok = induct(vc, "half-parity", lambda m: (H(b, b + m) % 2 == 1) == PP(b, b + m), 0, extra=[pp(s(b + kk), S(b, b + kk)), (S(b, b + kk) % 2 == 1) == OC(b, b + kk)])
                vc.axioms = [a for a in vc.axioms if a[2] != "half-parity"]
            if ok:
                vc.add_axiom(z3.ForAll([i, j], z3.Implies(j >= i, z3.And(S(i, j) * S(i, j) - Q(i, j) == 2 * H(i, j), (H(i, j) % 2 == 1) == PP(i, j), (S(i, j) % 2 == 1) == OC(i, j))), patterns=[PP(i, j)]), "square-sum")
            induct(vc, "abs-monotone", lambda m: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= m), z3.And(0 <= A(i), A(i) <= A(m))), patterns=[A(i)]), 0)
            vc.axioms = [a for a in vc.axioms if a[2] != "abs-monotone"]
            vc.add_axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), z3.And(0 <= A(i), A(i) <= A(j))), patterns=[z3.MultiPattern(A(i), A(j))]), "abs-monotone")
            st.update(S=S, Q=Q, H=H, OC=OC, PP=PP, A=A, GP=GP, start=start)
        st["n"], st["g"] = n, g
        r = vc.invoke(f, [vc.new_lv(syms), vc.new_lv(flag), vc.new_lv(val)], None, "")
        vc.prove("post: sign == parity over valid groups of the odd pairs inside the group", vc.tobool(r) == st["GP"](g))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def cands(vc, sc):
        out = []
        GP, start, S, Q, A, n, g = [st[x] for x in ("GP", "start", "S", "Q", "A", "n", "g")]
        ints = sc.ints()
        for bn, b, bm in sc.bools():
            for i_n, i, im in ints:
                out.append(("%s==GP(%s)" % (bn, i_n), lambda vc, b=b, i=i: b(vc) == GP(i(vc))))
        sums, pos = sc.signed()
        for i_n, i, im in pos:
            if not im:
                continue
            out.append(("%s<=n" % i_n, lambda vc, i=i: i(vc) <= n))
            out.append(("%s<=g" % i_n, lambda vc, i=i: i(vc) <= g))
        for i_n, i, im in pos:
            for j_n, j, jm in pos:
                if i_n != j_n and (im or jm):
                    out.append(("%s==start(%s)" % (i_n, j_n), lambda vc, i=i, j=j: i(vc) == start(j(vc))))
                    out.append(("start(%s)<=%s" % (j_n, i_n), lambda vc, i=i, j=j: start(j(vc)) <= i(vc)))
                    out.append(("%s<=start(%s+1)" % (i_n, j_n), lambda vc, i=i, j=j: i(vc) <= start(j(vc) + 1)))
        for i_n, i, im in sums:
            if not im:
                continue
            for j_n, j, jm in pos:
                if not jm:
                    continue
                # j plays the role of a position: |i| <= A(j), 0<=i<=A(j)^2
                out.append(("|%s|<=A(%s)" % (i_n, j_n), lambda vc, i=i, j=j: z3.And(i(vc) <= A(j(vc)), -i(vc) <= A(j(vc)))))
                out.append(("0<=%s<=A(%s)^2" % (i_n, j_n), lambda vc, i=i, j=j: z3.And(0 <= i(vc), i(vc) <= A(j(vc)) * A(j(vc)))))
                for k_n, k, km in pos:
                    if k_n == j_n:
                        continue
                    if not km:
                        out.append(("%s==S(%s,%s)" % (i_n, k_n, j_n), lambda vc, i=i, j=j, k=k: i(vc) == S(k(vc), j(vc))))
                        out.append(("%s==Q(%s,%s)" % (i_n, k_n, j_n), lambda vc, i=i, j=j, k=k: i(vc) == Q(k(vc), j(vc))))
                        out.append(("%s==S(start(%s),%s)" % (i_n, k_n, j_n), lambda vc, i=i, j=j, k=k: i(vc) == S(start(k(vc)), j(vc))))
                        out.append(("%s==Q(start(%s),%s)" % (i_n, k_n, j_n), lambda vc, i=i, j=j, k=k: i(vc) == Q(start(k(vc)), j(vc))))
                    if not km:
                        for h_n, h, hm in sums:
                            if hm and h_n != i_n:
                                out.append(("%s^2-%s==2H(%s,%s)" % (i_n, h_n, k_n, j_n), lambda vc, i=i, j=j, k=k, h=h: i(vc) * i(vc) - h(vc) == 2 * st["H"](k(vc), j(vc))))
        return out

    vc.cand_gens = [generic_candidates, cands]
    vc.explore(body)


SPECS = [
    ("get_reverse_parity", "TAT::fermi_symmetry::get_reverse_parity", spec_reverse),
    ("get_transpose_parity", "TAT::fermi_symmetry::get_transpose_parity", spec_transpose),
    ("get_split_merge_parity", "TAT::fermi_symmetry::get_split_merge_parity", spec_split_merge),
]
