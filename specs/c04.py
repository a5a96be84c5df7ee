"""C04 (the data movement of a transposition): every entry of the block arrives at its place, with the sign asked for"""
import os
import z3
from tatv.engine import *
from tatv.lib import *

TU = "transpose.cpp"
ROOTS = r"TAT::(tensor_transpose_kernel|simple_transpose|inturn_transpose|do_transpose|matrix_transpose)"
A = z3.ArraySort(z3.IntSort(), z3.IntSort())
sel = z3.Select


def fuelled(vc, name, ps, ret, base, step):
    """f(ps.., x, k) over index arrays x: f(.,0)=base, f(.,k)=step(.,k-1,f(.,k-1)); unfolds at most twice from the terms of a specification"""
    fs = [z3.Function("%s_%d" % (name, i), *[p.sort() for p in ps], A, Int, ret) for i in range(3)]
    x, k = z3.Const("x", A), z3.Int("k")
    v = list(ps) + [x, k]
    nm = {f.name() for f in fs}
    for i in (1, 2):
        vc.add_axiom(z3.ForAll(v, fs[i](*v) == fs[i - 1](*v), patterns=[fs[i](*v)]), name + "-same", nm)
        vc.add_axiom(z3.ForAll(v, z3.Implies(k > 0, fs[i](*v) == step(x, k - 1, i - 1, fs[i - 1](*(v[:-1] + [k - 1])))), patterns=[fs[i](*v)]), name + "-step", nm)
    vc.add_axiom(z3.ForAll(v, z3.Implies(k <= 0, fs[0](*v) == base), patterns=[fs[0](*v)]), name + "-base", nm)
    return fs


def witnessed(vc, name, P, extra=0):
    """p(y,..) <=> for all j: P(y,j,..), with a named witness for its negation"""
    so = [A] + [Int] * extra
    p, w = z3.Function(name, *so, Bool), z3.Function(name + "_not", *so, Int)
    y = [z3.Const("y", A)] + [z3.Int("y%d" % n) for n in range(extra)]
    j = z3.Int("j")
    vc.add_axiom(z3.ForAll(y + [j], z3.Implies(p(*y), P(y[0], j, *y[1:])), patterns=[z3.MultiPattern(p(*y), sel(y[0], j))]), name, {name})
    vc.add_axiom(z3.ForAll(y, z3.Or(p(*y), z3.Not(P(y[0], w(*y), *y[1:]))), patterns=[p(*y)]), name, {name})
    return p


class Theory:
    """offsets OFF(l,x,k) = sum of x[j]*l[j] for j<k of a multi-index x under strides l, and the order of multi-indices relative to a
    fixed index z: EQ(x,k): x agrees with z on the first k positions, LT(x,k): z is before x in lexicographic order on the first k"""

    def __init__(self, vc, z):
        self.vc, self.z, self.ok = vc, z, True
        self.M = M = z3.Function("mul", Int, Int, Int)
        a, b, c, k, i, v, m, t = z3.Ints("a b c k i v m t")
        x, l = z3.Consts("x l", A)
        # mul is multiplication; the solver only sees these consequences, each proved of the product
        self.fact("mul-0", [b], lambda M: M(0, b) == 0, lambda M: [M(0, b)])
        self.fact("mul-1", [a, b, c], lambda M: z3.Implies(c == a + 1, M(c, b) == M(a, b) + b), lambda M: [z3.MultiPattern(M(a, b), M(c, b))])
        OFF = fuelled(vc, "OFF", [l], Int, I(0), lambda x, k, n, p: p + M(sel(x, k), sel(l, k)))
        EQ = fuelled(vc, "EQ", [], Bool, z3.BoolVal(True), lambda x, k, n, p: z3.And(p, sel(x, k) == sel(z, k)))
        LT = fuelled(vc, "LT", [], Bool, z3.BoolVal(False), lambda x, k, n, p: z3.Or(p, z3.And(EQ[n](x, k), sel(z, k) < sel(x, k))))
        self.OFF, self.EQ, self.LT = OFF, EQ, LT
        self.zero = zero = witnessed(vc, "zero", lambda y, j, lo, hi: z3.Implies(z3.And(lo <= j, j < hi), sel(y, j) == 0), 2)
        fs = [([l], OFF), ([], EQ), ([], LT)]
        # what an index beyond position k is does not matter to the first k positions
        for p, F in fs:
            self.induct("frame " + F[0].name(), lambda k: z3.Implies(k <= i, F[2](*p, z3.Store(x, i, v), k) == F[2](*p, x, k)),
                        z3.ForAll(p + [x, i, v, k], z3.Implies(z3.And(k >= 0, k <= i), F[0](*p, z3.Store(x, i, v), k) == F[0](*p, x, k)), patterns=[F[0](*p, z3.Store(x, i, v), k)]))
        # equal indices have equal offsets
        self.induct("equal", lambda k: z3.Implies(EQ[2](x, k), OFF[2](l, x, k) == OFF[2](l, z, k)),
                    z3.ForAll([l, x, k], z3.Implies(z3.And(k >= 0, EQ[0](x, k)), OFF[0](l, x, k) == OFF[2](l, z, k)), patterns=[z3.MultiPattern(EQ[0](x, k), OFF[0](l, x, k))]))
        # an index that continues with zeros, or is zero
        self.nn = nn = z3.ForAll([i], sel(z, i) >= 0, patterns=[sel(z, i)])
        for p, F, h in (([l], OFF, z3.BoolVal(True)), ([], LT, nn)):
            n = F[0].name()
            self.induct("zero tail " + n, lambda k: z3.Implies(z3.And(h, m >= 0, zero(x, m, m + k)), F[2](*p, x, m + k) == F[2](*p, x, m)),
                        z3.ForAll(p + [x, m, k], z3.Implies(z3.And(h, 0 <= m, m <= k, zero(x, m, k)), F[2](*p, x, k) == F[2](*p, x, m)), patterns=[z3.MultiPattern(F[2](*p, x, m), F[2](*p, x, k))]))
            self.close("zero " + n, z3.Implies(z3.And(h, 0 <= k, zero(x, 0, k)), F[2](*p, x, k) == (0 if F is OFF else z3.BoolVal(False))), p + [x, k], [F[2](*p, x, k)], [F[2](*p, x, I(0))])

    def fact(self, name, vs, P, pats, timeout=20):
        """a statement about multiplication"""
        if lemma(self.vc, name, P(lambda a, b: (a if z3.is_expr(a) else I(a)) * b), axiom=False, timeout=timeout):
            self.vc.add_axiom(z3.ForAll(vs, P(self.M), patterns=pats(self.M)), name, {"mul"})
        else:
            self.ok = False

    def product(self, d, l):
        """the strides' products the code computes itself"""
        k = z3.Int("k")
        M = self.M
        self.vc.add_axiom(z3.ForAll([k], M(sel(d, k), sel(l, k)) == sel(d, k) * sel(l, k), patterns=[M(sel(d, k), sel(l, k))]), "mul-d", {"mul"})

    def close(self, name, P, vs, pats, hints, pc=()):
        """P, proved for arbitrary constants (hints: terms the solver should look at), becomes universal"""
        h = [z3.Const("hint%d" % n, h.sort()) == h for n, h in enumerate(hints)]
        ok = lemma(self.vc, name, P, pc=h + list(pc), axiom=False)
        if ok:
            self.vc.add_axiom(z3.ForAll(vs, P, patterns=pats), name)
        self.ok = self.ok and ok
        return ok

    def induct(self, name, P, stmt, extra=()):
        """P(k) for all k>=0, its other variables being arbitrary constants; stmt is the universal closure with triggers"""
        n0 = len(self.vc.axioms)
        ok = induct(self.vc, name, P, 0, extra=extra)
        del self.vc.axioms[n0:]
        if ok:
            self.vc.add_axiom(stmt, name)
        self.ok = self.ok and ok
        return ok

    def mul_more(self):
        a, b, d, l, t = z3.Ints("a b d l t")
        self.fact("mul-sign", [a, l], lambda M: z3.Implies(z3.And(a >= 0, l >= 0), M(a, l) >= 0), lambda M: [M(a, l)])
        self.fact("mul-mono", [a, d, l], lambda M: z3.Implies(z3.And(0 <= a, a < d, l >= 0), M(a, l) + l <= M(d, l)), lambda M: [z3.MultiPattern(M(a, l), M(d, l))])
        self.fact("mul-apart", [a, b, l], lambda M: z3.Implies(z3.And(M(a, l) - M(b, l) < l, M(b, l) - M(a, l) < l, l > 0), a == b), lambda M: [z3.MultiPattern(M(a, l), M(b, l))])

    def tails(self, tag, d, l, r, lo, inbox, pc):
        """strides l of the positions from lo on are the products of the dimensions after them (known in pc): what these positions contribute to
        an offset is less than the product of their dimensions"""
        M, OFF = self.M, self.OFF
        x, k = z3.Const("x", A), z3.Int("k")
        B = lambda k: z3.If(k >= r, I(1), M(sel(d, k), sel(l, k)))
        tail = lambda k: OFF[2](l, x, r) - OFF[2](l, x, k)
        P = lambda n: z3.Implies(z3.And(inbox(x), lo <= r - n), z3.And(0 <= tail(r - n), tail(r - n) < B(r - n), B(r - n) > 0))
        self.tail_at = getattr(self, "tail_at", {})
        self.tail_at[tag] = lambda x, k: z3.Implies(z3.And(inbox(x), lo <= k, k <= r), z3.And(0 <= OFF[2](l, x, r) - OFF[2](l, x, k), OFF[2](l, x, r) - OFF[2](l, x, k) < B(k)))
        return self.induct("tail " + tag, P, z3.ForAll([x, k], z3.Implies(z3.And(inbox(x), lo <= k, k <= r), z3.And(0 <= tail(k), tail(k) < B(k))), patterns=[z3.MultiPattern(inbox(x), OFF[2](l, x, k))]), extra=pc)

    def injective(self, tag, d, l, r, inbox, pc):
        """two indices of the box with the same offset are equal"""
        M, OFF, EQ, z = self.M, self.OFF, self.EQ, self.z
        x, k = z3.Const("x", A), z3.Int("k")
        same = OFF[2](l, x, r) == OFF[2](l, z, r)
        hint = [self.tail_at[tag](y, k + 1) for y in (x, z)]
        keep, self.vc.axioms = self.vc.axioms, [a for a in self.vc.axioms if a[2].startswith(("OFF", "EQ", "mul-apart", "equal", "inbox"))]
        P = lambda k: z3.Implies(z3.And(inbox(x), same, k <= r), EQ[2](x, k))
        ok = self.induct("injective " + tag, P, z3.ForAll([x], z3.Implies(z3.And(inbox(x), same), EQ[2](x, r)), patterns=[OFF[2](l, x, r)]), extra=list(pc) + hint)
        self.vc.axioms = keep + self.vc.axioms[-1:] if ok else keep
        return ok

    def digits(self, d, ls, ld, r, lo, inbox, pc):
        """from position lo on, every number below the product of the dimensions is the contribution of some index of the box"""
        M, OFF, EQ = self.M, self.OFF, self.EQ
        vc = self.vc
        put = z3.Function("put", A, Int, Int, A)
        x, k, t = z3.Const("x", A), z3.Int("k"), z3.Int("t")
        a, l, q, e = z3.Ints("a l q e")
        self.fact("mul-div", [t, l], lambda M: z3.Implies(z3.And(l > 0, t >= 0), z3.And(M(t / l, l) + t % l == t, t % l >= 0, t % l < l, t / l >= 0)), lambda M: [M(t / l, l)])
        self.fact("mul-quot", [t, l, a], lambda M: z3.Implies(z3.And(l > 0, t >= 0, t < M(a, l)), t / l < a), lambda M: [z3.MultiPattern(t / l, M(a, l))])
        y = lambda x, k, t: z3.Store(x, k, t / sel(ld, k))
        vc.add_axiom(z3.ForAll([x, k, t], put(x, k, t) == z3.If(k >= r, x, put(y(x, k, t), k + 1, t % sel(ld, k))), patterns=[put(x, k, t)]), "put", {"put"})
        B = lambda k: z3.If(k >= r, I(1), M(sel(d, k), sel(ld, k)))
        good = lambda x, k, t: z3.And(inbox(put(x, k, t)), OFF[2](ld, put(x, k, t), r) == OFF[2](ld, x, k) + t, OFF[2](ls, put(x, k, t), r) == OFF[2](ls, x, k) + t)
        dom = lambda x, k, t: z3.And(inbox(x), lo <= k, k <= r, 0 <= t, t < B(k))
        same = lambda x, k, t, m: z3.Implies(z3.And(0 <= m, m <= k), EQ[2](put(x, k, t), m) == EQ[2](x, m))
        m = z3.Int("m")
        P = lambda x, k, t: z3.Implies(dom(x, k, t), z3.And(good(x, k, t), same(x, k, t, m)))
        n = z3.Int("n")
        # downwards from r; the step uses the claim at the next position for the stored digit
        ok = lemma(vc, "digits (base)", P(x, r, t), pc=list(pc), axiom=False)
        hyp = P(y(x, k, t), k + 1, t % sel(ld, k))
        keep = vc.axioms
        vc.axioms = [a for a in vc.axioms if a[2] not in ("mul-mono", "mul-apart", "mul-sign", "mul-0", "mul-1") and not a[2].startswith(("zero", "LT", "tail", "frame LT", "equal"))]
        ok = lemma(vc, "digits (step)", z3.Implies(z3.And(k < r, hyp), P(x, k, t)), pc=list(pc) + [z3.Int("h0") == M(t / sel(ld, k), sel(ld, k))], axiom=False) and ok
        vc.axioms = keep
        # only now is put constrained at the position the kernel asks about
        vc.axioms = [a for a in vc.axioms if a[2] != "put"]
        self.put = put
        if ok:
            vc.add_axiom(z3.ForAll([x, t], z3.Implies(dom(x, lo, t), z3.And(good(x, lo, t), EQ[2](put(x, lo, t), lo) == EQ[2](x, lo))), patterns=[put(x, lo, t)]), "digits")
            self.digits_at = lambda x, t: z3.Implies(dom(x, lo, t), z3.And(good(x, lo, t), EQ[2](put(x, lo, t), lo) == EQ[2](x, lo)))
        self.ok = self.ok and ok
        return ok


def light_candidates(vc, sc):
    """bounds of the integer variables (not of the data pointers)"""
    out = []
    ints = [v for v in sc.ints() if not v[0].startswith("idx(") and (v[2] or not z3.is_int_value(v[1](vc)))]
    for n, g, m in ints:
        if not m:
            continue
        v0 = g(vc)
        out.append((n + ">=0", lambda vc, g=g: g(vc) >= 0))
        out.append((n + "<=entry", lambda vc, g=g, v0=v0: g(vc) <= v0))
        for n2, g2, m2 in ints:
            if n2 != n:
                out.append(("%s<=%s" % (n, n2), lambda vc, g=g, g2=g2: g(vc) <= g2(vc)))
                out.append(("%s<%s" % (n, n2), lambda vc, g=g, g2=g2: g(vc) < g2(vc)))
    for n, g, m in sc.seqs():
        if m:
            l0 = ln(g(vc))
            out.append(("len(%s) const" % n, lambda vc, g=g, l0=l0: ln(g(vc)) == l0))
    for n, g, m in sc.ptrs():
        if g(vc).idx is not None and g(vc).lv.cell in sc.mod:
            l0 = ln(vc.load(g(vc).lv))
            out.append(("len(*%s) const" % n, lambda vc, g=g, l0=l0: ln(vc.load(g(vc).lv)) == l0))
    return out


def targ(f, i):
    t = f["targs"][i] if i < len(f["targs"]) else None
    return t["v"] == "1" if isinstance(t, dict) else t


def kernel_pre(th, d, ls, ld, r, inbox, src, dst, line):
    """what a caller of the kernel has to guarantee: [(name, formula)].  d, ls, ld: arrays; line: None or (line_rank, line_size)"""
    x, j = z3.Const("x", A), z3.Int("j")
    OFF, EQ, z, M = th.OFF, th.EQ, th.z, th.M
    D, L = (lambda k: sel(d, k)), [lambda k, l=l: sel(l, k) for l in (ls, ld)]
    at = lambda k: z3.And(0 <= k, k < r)
    out = [("rank at least 1", r >= 1), ("dimensions at least 1", z3.ForAll([j], z3.Implies(at(j), z3.And(1 <= D(j), D(j) < 2**62)), patterns=[D(j)]))]
    for l in L:
        out.append(("strides fit", z3.ForAll([j], z3.Implies(at(j), z3.And(l(j) >= 0, l(j) < 2**62)), patterns=[l(j)])))
        out.append(("spans fit", z3.ForAll([j], z3.Implies(at(j), z3.And(0 <= M(D(j), l(j)), M(D(j), l(j)) < 2**62)), patterns=[M(D(j), l(j))])))
    out.append(("the source covers the box", z3.ForAll([x], z3.Implies(inbox(x), z3.And(0 <= OFF[2](ls, x, r), OFF[2](ls, x, r) < ln(src))), patterns=[OFF[2](ls, x, r)])))
    out.append(("the destination covers the box", z3.ForAll([x], z3.Implies(inbox(x), z3.And(0 <= OFF[2](ld, x, r), OFF[2](ld, x, r) < ln(dst))), patterns=[OFF[2](ld, x, r)])))
    out.append(("no two indices share a destination", z3.ForAll([x], z3.Implies(z3.And(inbox(x), OFF[2](ld, x, r) == OFF[2](ld, z, r)), EQ[2](x, r)), patterns=[OFF[2](ld, x, r)])))
    if line:
        lr, n = line
        out.append(("the line starts inside", z3.And(0 <= lr, lr < r)))
        out.append(("the line is contiguous on both sides", z3.And(L[0](r - 1) == 1, L[1](r - 1) == 1, n == M(D(lr), L[0](lr)), n == M(D(lr), L[1](lr)))))
        out.append(("strides along the line", z3.ForAll([j], z3.Implies(z3.And(lr <= j, j < r), z3.And(L[0](j) == L[1](j), L[1](j) >= 1, z3.Implies(j + 1 < r, L[1](j) == M(D(j + 1), L[1](j + 1))))), patterns=[L[0](j), L[1](j)])))
    return out


def inbox_of(vc, d, r, name="inbox"):
    return witnessed(vc, name, lambda y, j: z3.Implies(z3.And(0 <= j, j < r), z3.And(0 <= sel(y, j), sel(y, j) < sel(d, j))))


def kernel_spec(vc, f):
    parity, last = bool(targ(f, 1)), bool(targ(f, 2))
    tks = [vc.ty.strip(p["type"]) for p in f["params"]]
    vc.merge_ifs = False
    es = vc.ty.sort(vc.ty.strip(f["targs"][0]))
    st = {}
    x = z3.Const("x", A)
    neg = (lambda v: uf("fneg_" + es.name(), es, es)(v)) if parity else lambda v: v

    def body():
        vc.reset()
        src, dst = [vc.fresh(n, vc.ty.seqsort(es)) for n in ("src", "dst")]
        dim, ls, ld = [vc.fresh(n, vc.ty.seqsort(Int)) for n in ("dim", "ls", "ld")]
        r = vc.symbolic("rank", tks[5])
        z = z3.Const("z", A)
        d, a, b = arr(dim), arr(ls), arr(ld)
        line = None
        if last:
            lr = vc.symbolic("line_rank", tks[6])
            L = vc.symbolic("line_size", tks[7])
            static = targ(f, 3).split("<")[1].split(">")[0]
            line = (lr, I(int(static[:-2])) if "," not in static else vc.get(L, ("f", "m_value")))
        first = "t" not in st
        if first:
            th = st["t"] = Theory(vc, z)
            th.product(d, a)
            th.product(d, b)
            st["inbox"] = inbox_of(vc, d, r)
            st["inbox1"] = witnessed(vc, "inbox1", lambda y, j, p: z3.Implies(z3.And(0 <= j, j < r), z3.And(0 <= sel(y, j), z3.If(j == p, sel(y, j) <= sel(d, j), sel(y, j) < sel(d, j)))), 1)
        th, inbox = st["t"], st["inbox"]
        OFF, EQ, LT = th.OFF, th.EQ, th.LT
        vc.assume(z3.And(ln(dim) >= r, ln(ls) >= r, ln(ld) >= r))
        vc.assume(th.nn)
        vc.assume(inbox(z))
        pre = kernel_pre(th, d, a, b, r, inbox, src, dst, line)
        for nm, p in pre:
            # for the line variant, what follows from the others is stated below
            if not last or nm in ("rank at least 1", "dimensions at least 1", "strides fit", "spans fit", "the line starts inside", "the line is contiguous on both sides"):
                vc.assume(p)
        if last:
            lr, n = line
            if first:
                th.mul_more()
                pc = list(vc.pc) + [p for _, p in pre]
                th.tails("source", d, a, r, lr, inbox, pc)
                th.tails("destination", d, b, r, lr, inbox, pc)
                th.digits(d, a, b, r, lr, inbox, pc)
                T = z3.Int("T")
                t = z3.Int("t")
                p = th.put(x, lr, t)
                ok = th.ok
                ok = lemma(vc, "line of z", z3.And(OFF[2](a, z, r) - OFF[2](a, z, lr) == OFF[2](b, z, r) - OFF[2](b, z, lr), OFF[2](b, z, r) - OFF[2](b, z, lr) >= 0, OFF[2](b, z, r) - OFF[2](b, z, lr) < n), pc=pc + equal_tails(th, a, b, r, lr, inbox, pc), axiom=False) and ok
                fc = [p for nm, p in kernel_pre(th, d, a, b, r, inbox, src, dst, line)]
                keep, eqm = vc.axioms, mono_eq(th, r, lr)
                vc.axioms = []
                inst = [th.digits_at(x, t), line[0] < r, n == th.M(sel(d, lr), sel(b, lr)), eqm] + [q for q in fc if has_quant(q) and "OFF" in str(q.decl() if z3.is_app(q) else q)] if ok else []
                ok = ok and lemma(vc, "lines", z3.Implies(z3.And(inbox(x), 0 <= t, t < n), z3.And(0 <= OFF[2](a, x, lr) + t, OFF[2](a, x, lr) + t < ln(src), 0 <= OFF[2](b, x, lr) + t, OFF[2](b, x, lr) + t < ln(dst), z3.Implies(OFF[2](b, x, lr) + t == OFF[2](b, z, r), EQ[2](x, lr)))), pc=inst, axiom=False)
                vc.axioms = keep
                # the lemmas needed for that are not needed below
                vc.axioms = [q for q in vc.axioms if not (q[2].startswith("tail ") or q[2].startswith("digits") or q[2] in ("mul-sign", "mul-mono", "mul-apart", "mul-div", "mul-quot"))]
                st["lineok"] = ok
            if st["lineok"]:
                T = z3.Int("T")
                vc.assume(z3.And(T == OFF[2](a, z, r) - OFF[2](a, z, lr), T == OFF[2](b, z, r) - OFF[2](b, z, lr), T >= 0, T < n))
                vc.assume(z3.ForAll([x], z3.Implies(inbox(x), z3.And(0 <= OFF[2](a, x, lr), OFF[2](a, x, lr) + n <= ln(src))), patterns=[OFF[2](a, x, lr)]))
                vc.assume(z3.ForAll([x], z3.Implies(inbox(x), z3.And(0 <= OFF[2](b, x, lr), OFF[2](b, x, lr) + n <= ln(dst), z3.Implies(z3.And(OFF[2](b, x, lr) <= OFF[2](b, z, r), OFF[2](b, z, r) < OFF[2](b, x, lr) + n), EQ[2](x, lr)))), patterns=[OFF[2](b, x, lr)]))
                st.update(lr=lr, T=T)
        slv, dlv, mlv, llv, elv = [vc.new_lv(v) for v in (src, dst, dim, ls, ld)]
        done = lambda vc: sel(arr(vc.load(dlv)), OFF[2](b, z, r)) == neg(sel(arr(src), OFF[2](a, z, r)))
        P = lambda lv: vc.new_lv(Ptr(lv, I(0), "seq"))
        args = [P(slv), P(dlv), P(mlv), P(llv), P(elv), vc.new_lv(r)]
        args += [vc.new_lv(lr), vc.new_lv(L)] if last else [vc.new_lv(I(0)) for _ in tks[6:]]
        S, D = (lambda y, k: OFF[2](a, y, k)), (lambda y, k: OFF[2](b, y, k))
        st.update(z=z, r=r, d=d, done=done, slv=slv, dlv=dlv, S=S, D=D, EQ=EQ, LT=LT)
        vc.invoke(f, args, None, "")
        vc.prove("post: the entry is at its place, with the sign asked for", done(vc))
        vc.prove("frame: the source, the dimensions and the strides are not changed", z3.And(vc.load(slv) == src, vc.load(mlv) == dim, vc.load(llv) == ls, vc.load(elv) == ld))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def gen(vc, sc):
        out = []
        z, r, d, S, D, EQ, LT, done = [st[k] for k in ("z", "r", "d", "S", "D", "EQ", "LT", "done")]
        ints = [v for v in sc.ints() if not v[0].startswith("idx(") and (v[2] or not z3.is_int_value(v[1](vc)))]
        # how many leading positions of the index list count
        upto = [(n, g) for n, g, m in ints] + [(n + "+1", lambda vc, g=g: g(vc) + 1) for n, g, m in ints if m]
        ptrs = [(n, g, m) for n, g, m in sc.ptrs() if m and g(vc).idx is not None]
        for xn, xs, m in sc.seqs(Int):
            X = lambda vc, xs=xs: arr(xs(vc))
            if last:
                for n, g, gm in ints:
                    if gm:
                        out.append(("done before %s in the line %s" % (n, xn), lambda vc, X=X, g=g: z3.Implies(z3.Or(LT[2](X(vc), st["lr"]), z3.And(EQ[2](X(vc), st["lr"]), st["T"] < g(vc))), done(vc))))
            if not m:
                continue
            out.append(("%s in the box" % xn, lambda vc, X=X: st["inbox"](X(vc))))
            for n, g, gm in ints:
                out.append(("%s in the box but at %s" % (xn, n), lambda vc, X=X, g=g: st["inbox1"](X(vc), g(vc))))
                if last and gm:
                    out.append(("%s full at %s if that is line_rank" % (xn, n), lambda vc, X=X, g=g: z3.Implies(g(vc) == st["lr"], sel(X(vc), g(vc)) == sel(d, g(vc)))))
            if last:
                out.append(("%s full at line_rank" % xn, lambda vc, X=X: sel(X(vc), st["lr"]) == sel(d, st["lr"])))
            for n, g in upto:
                out.append(("%s zero from %s" % (xn, n), lambda vc, X=X, g=g: st["t"].zero(X(vc), g(vc), r)))
                out.append(("done before %s up to %s" % (xn, n), lambda vc, X=X, g=g: z3.Implies(LT[2](X(vc), g(vc)), done(vc))))
                for pn, p, _ in ptrs:
                    F = S if p(vc).lv.cell == st["slv"].cell else D if p(vc).lv.cell == st["dlv"].cell else None
                    if F:
                        out.append(("%s is the offset of %s up to %s" % (pn, xn, n), lambda vc, X=X, g=g, p=p, F=F: p(vc).idx == F(X(vc), g(vc))))
        return out

    vc.cand_gens = [light_candidates, gen]
    vc.explore(body)


def equal_tails(th, a, b, r, lr, inbox, pc):
    """where the strides agree from lr on, the tails agree: proved, returned as a list of facts"""
    OFF, z = th.OFF, th.z
    P = lambda n: z3.Implies(lr + n <= r, OFF[2](a, z, lr + n) - OFF[2](a, z, lr) == OFF[2](b, z, lr + n) - OFF[2](b, z, lr))
    n0 = len(th.vc.axioms)
    ok = induct(th.vc, "equal tails", P, 0, extra=pc)
    del th.vc.axioms[n0:]
    return [P(r - lr)] if ok else []


def mono_eq(th, r, lr):
    """agreement on the first r positions is agreement on the first lr"""
    y, m = z3.Const("y", A), z3.Int("m")
    EQ = th.EQ
    P = lambda n: z3.Implies(EQ[2](y, m + n), EQ[2](y, m))
    n0 = len(th.vc.axioms)
    ok = induct(th.vc, "shorter agreement", P, 0, extra=[m >= 0])
    del th.vc.axioms[n0:]
    return z3.ForAll([y], z3.Implies(EQ[2](y, r), EQ[2](y, lr)), patterns=[EQ[2](y, r)]) if ok else z3.BoolVal(True)


class Blocks:
    """the situation in which a transposition is asked for: dimensions and strides of source and destination, and the plan"""

    def __init__(self, vc, args, tks):
        # args: (plan s->d, plan d->s, dims s, dims d, leadings s, leadings d, rank)
        self.q, self.p, self.ds, self.dd, self.ls, self.ld = [arr(a) for a in args[:6]]
        self.seqs, self.r = args[:6], args[6]
        self.z = z3.Const("z", A)

    def pre(self, vc, th, inbox, src, dst, total=None):
        """[(name, formula)]"""
        r, M, j = self.r, th.M, z3.Int("j")
        at = lambda k: z3.And(0 <= k, k < r)
        out = [("rank at least 1", r >= 1), ("lists are long enough", z3.And(*[ln(s) == r for s in self.seqs]))]
        P, Q = (lambda k: sel(self.p, k)), (lambda k: sel(self.q, k))
        out.append(("the plans are inverse to each other", z3.ForAll([j], z3.Implies(at(j), z3.And(0 <= P(j), P(j) < r, 0 <= Q(j), Q(j) < r, Q(P(j)) == j, P(Q(j)) == j)), patterns=[P(j), Q(j)])))
        out.append(("dimensions move with their legs", z3.ForAll([j], z3.Implies(at(j), z3.And(sel(self.ds, P(j)) == sel(self.dd, j), sel(self.dd, Q(j)) == sel(self.ds, j))), patterns=[P(j), Q(j)])))
        for n, d, l, data in (("source", self.ds, self.ls, src), ("destination", self.dd, self.ld, dst)):
            out.append((n + " dimensions", z3.ForAll([j], z3.Implies(at(j), z3.And(1 <= sel(d, j), sel(d, j) < 2**62)), patterns=[sel(d, j)])))
            out.append((n + " strides", z3.And(sel(l, r - 1) == 1, z3.ForAll([j], z3.Implies(at(j), z3.And(sel(l, j) >= 1, sel(l, j) < 2**62, z3.Implies(j + 1 < r, sel(l, j) == M(sel(d, j + 1), sel(l, j + 1))))), patterns=[sel(l, j)]))))
            out.append((n + " spans", z3.ForAll([j], z3.Implies(at(j), z3.And(0 <= M(sel(d, j), sel(l, j)), M(sel(d, j), sel(l, j)) < 2**62)), patterns=[M(sel(d, j), sel(l, j))])))
            out.append((n + " size", (M(sel(d, 0), sel(l, 0)) <= ln(data)) if total is None else M(sel(d, 0), sel(l, 0)) == total))
        return out


def theory(vc, b, st):
    """lemmas about standard strides, proved once per specification; comp(x): the index x of the destination written in the order of the source"""
    th = st["t"] = Theory(vc, b.z)
    th.mul_more()
    st["inbox"] = inbox_of(vc, b.dd, b.r)
    st["inbox_s"] = inbox_of(vc, b.ds, b.r, "inbox_s")
    comp = st["comp"] = z3.Function("comp", A, A)
    x, j = z3.Const("x", A), z3.Int("j")
    vc.add_axiom(z3.ForAll([x, j], sel(comp(x), j) == sel(x, sel(b.q, j)), patterns=[sel(comp(x), j)]), "comp", {"comp"})
    return th


def facts(vc, b, st, src, dst, pc):
    th, x = st["t"], z3.Const("x", A)
    OFF, r = th.OFF, b.r
    th.close("comp in the box", z3.Implies(st["inbox"](x), st["inbox_s"](st["comp"](x))), [x], [st["comp"](x)], [], pc=pc)
    th.tails("source", b.ds, b.ls, r, I(0), st["inbox_s"], pc)
    th.tails("destination", b.dd, b.ld, r, I(0), st["inbox"], pc)
    th.injective("destination", b.dd, b.ld, r, st["inbox"], pc)
    for n, d, l, ib in (("source", b.ds, b.ls, st["inbox_s"]), ("destination", b.dd, b.ld, st["inbox"])):
        keep, vc.axioms = vc.axioms, [a for a in vc.axioms if a[2].startswith("OFF")]
        ok = th.close("range " + n, z3.Implies(ib(x), z3.And(0 <= OFF[2](l, x, r), OFF[2](l, x, r) < th.M(sel(d, 0), sel(l, 0)))), [x], [OFF[2](l, x, r)], [OFF[2](l, x, I(0))], pc=[th.tail_at[n](x, I(0)), r >= 1])
        vc.axioms = keep + vc.axioms[-1:] if ok else keep
    vc.axioms = [q for q in vc.axioms if not (q[2].startswith("tail ") or q[2] in ("mul-sign", "mul-mono", "mul-apart"))]


def kernel_contract(st):
    def h(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        f = vc.ir.funcs.get(fr.get("fn"), fr)
        parity, last = bool(targ(f, 1)), bool(targ(f, 2))
        b, th, inbox = st["b"], st["t"], st["inbox"]
        ps = [vc.rv(a) for a in args[:5]]
        r = vc.rv(args[5])
        src, dst, dim, ls, ld = [vc.load(p.lv) for p in ps]
        for n, p in zip(("source", "destination", "dimension", "leading_source", "leading_destination"), ps):
            vc.prove("kernel requires: %s is passed from its beginning" % n, p.idx == 0, loc)
        d, l, m = arr(dim), arr(ls), arr(ld)
        k, x = z3.Int("k"), z3.Const("x", A)
        at = lambda k: z3.And(0 <= k, k < b.r)
        vc.prove("kernel requires: rank", r == b.r, loc)
        vc.prove("kernel requires: lists cover the rank", z3.And(ln(dim) >= r, ln(ls) >= r, ln(ld) >= r), loc)
        box_equal(vc, st, d, l, m, r, loc)
        line = None
        if last:
            L = vc.rv(args[7])
            static = targ(f, 3).split("<")[1].split(">")[0]
            line = (vc.rv(args[6]), I(int(static[:-2])) if "," not in static else vc.get(L, ("f", "m_value")))
        for n, p in kernel_pre(th, d, l, m, r, st["kinbox"], src, dst, line):
            vc.prove("kernel requires: " + n, p, loc)
        es = arr(src).sort().range()
        v = sel(arr(src), th.OFF[2](l, st["kz"], r))
        new = vc.fresh("moved", dst.sort())
        vc.assume(ln(new) == ln(dst))
        vc.assume(sel(arr(new), th.OFF[2](m, st["kz"], r)) == (uf("fneg_" + es.name(), es, es)(v) if parity else v))
        vc.write(ps[1].lv, new)
        return None

    return (lambda fr: fr["q"] == "TAT::tensor_transpose_kernel", h)


def box_equal(vc, st, d, l, m, r, loc):
    """the kernel's box and strides are the destination's, the source's strides taken along the plan"""
    b, th = st["b"], st["t"]
    k, x = z3.Int("k"), z3.Const("x", A)
    at = z3.And(0 <= k, k < b.r)
    vc.prove("kernel requires: dimensions of the destination", z3.ForAll([k], z3.Implies(at, sel(d, k) == sel(b.dd, k)), patterns=[sel(d, k)]), loc)
    vc.prove("kernel requires: strides of the destination", z3.ForAll([k], z3.Implies(at, sel(m, k) == sel(b.ld, k)), patterns=[sel(m, k)]), loc)
    vc.prove("kernel requires: strides of the source along the plan", z3.ForAll([k], z3.Implies(at, sel(l, k) == sel(b.ls, sel(b.p, k))), patterns=[sel(l, k)]), loc)
    # trusted: a finite sum does not depend on the order of its terms
    OFF = th.OFF
    vc.assume(z3.ForAll([x], OFF[2](l, x, r) == OFF[2](b.ls, st["comp"](x), r), patterns=[OFF[2](l, x, r)]))
    st["kinbox"], st["kz"] = st["inbox"], b.z


def moved(vc, st, src, dst, parity):
    b, th = st["b"], st["t"]
    es = arr(src).sort().range()
    v = sel(arr(src), th.OFF[2](b.ls, st["comp"](b.z), b.r))
    v = (z3.If(parity, uf("fneg_" + es.name(), es, es)(v), v)) if z3.is_expr(parity) else uf("fneg_" + es.name(), es, es)(v) if parity else v
    return sel(arr(dst), th.OFF[2](b.ld, b.z, b.r)) == v


def simple_spec(vc, f):
    parity = bool(targ(f, 1))
    tks = [vc.ty.strip(p["type"]) for p in f["params"]]
    vc.merge_ifs = False
    es = vc.ty.sort(vc.ty.strip(f["targs"][0]))
    st = {}
    vc.contracts = [kernel_contract(st)]
    vc.assumptions = {"a finite sum does not depend on the order of its terms"}

    def body():
        vc.reset()
        src, dst = [vc.fresh(n, vc.ty.seqsort(es)) for n in ("src", "dst")]
        a = [vc.symbolic(n, t) for n, t in zip(("plan_s2d", "plan_d2s", "dims_s", "dims_d", "lead_s", "lead_d", "rank"), tks[2:])]
        b = st["b"] = Blocks(vc, a, tks)
        first = "t" not in st
        th = theory(vc, b, st) if first else st["t"]
        if first:
            th.product(b.dd, b.ld)
        vc.assume(th.nn)
        vc.assume(st["inbox"](b.z))
        for _, p in b.pre(vc, th, st["inbox"], src, dst):
            vc.assume(p)
        if first:
            facts(vc, b, st, src, dst, list(vc.pc))
        slv, dlv = vc.new_lv(src), vc.new_lv(dst)
        P = lambda lv: vc.new_lv(Ptr(lv, I(0), "seq"))
        vc.invoke(f, [P(slv), P(dlv)] + [vc.new_lv(v) for v in a], None, "")
        vc.prove("post: the entry is at its place, with the sign asked for", moved(vc, st, src, vc.load(dlv), parity))
        vc.prove("frame: the source is not changed", vc.load(slv) == src)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def gen(vc, sc):
        out = []
        b, k = st["b"], z3.Int("k")
        ints = [v for v in sc.ints() if not v[0].startswith("idx(") and (v[2] or not z3.is_int_value(v[1](vc)))]
        mod = [v for v in ints if v[2]]
        for n, g, m in sc.seqs(Int):
            X = lambda vc, k, g=g: sel(arr(g(vc)), k)
            for i_n, i, im in mod:
                if m:
                    out.append(("len(%s)==%s" % (n, i_n), lambda vc, g=g, i=i: ln(g(vc)) == i(vc)))
                    out.append(("%s along the plan up to %s" % (n, i_n), lambda vc, X=X, i=i: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i(vc)), X(vc, k) == sel(b.ls, sel(b.p, k))), patterns=[X(vc, k)])))
                else:
                    out.append(("%s has the destination's strides from %s" % (n, i_n), lambda vc, X=X, i=i: z3.ForAll([k], z3.Implies(z3.And(i(vc) <= k, k < b.r), X(vc, k) == sel(b.ld, k)), patterns=[X(vc, k), sel(b.ld, k)])))
                    for e_n, e, _ in mod:
                        if e_n != i_n:
                            out.append(("%s is the stride at %s" % (e_n, i_n), lambda vc, e=e, i=i: e(vc) == sel(b.ld, i(vc))))
        return out

    vc.cand_gens = [light_candidates, gen]
    vc.explore(body)


def transposer_contract(st):
    """simple_transpose (proved) and inturn_transpose (not proved: covered by the bounded harness) have the same contract"""

    def h(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        f = vc.ir.funcs.get(fr.get("fn"), fr)
        b, th = st["b"], st["t"]
        ps = [vc.rv(a) for a in args[:2]]
        v = [vc.rv(a) for a in args[2:9]]
        src, dst = [vc.load(p.lv) for p in ps]
        nm = fr["q"].split("::")[-1]
        if "inturn" in nm:
            vc.assumptions.add("inturn_transpose meets the contract proved of simple_transpose (bounded harness only)")
        vc.prove(nm + " requires: data from its beginning", z3.And(ps[0].idx == 0, ps[1].idx == 0), loc)
        vc.prove(nm + " requires: the lists and the rank", z3.And(*[x == y for x, y in zip(v, list(b.seqs) + [b.r])]), loc)
        for n, p in b.pre(vc, th, st["inbox"], src, dst):
            vc.prove(nm + " requires: " + n, p, loc)
        new = vc.fresh("moved", dst.sort())
        vc.assume(ln(new) == ln(dst))
        vc.assume(moved(vc, st, src, new, bool(targ(f, 1))))
        vc.write(ps[1].lv, new)
        return None

    return (lambda fr: fr["q"] in ("TAT::simple_transpose", "TAT::inturn_transpose"), h)


def do_spec(vc, f):
    tks = [vc.ty.strip(p["type"]) for p in f["params"]]
    vc.merge_ifs = False
    es = vc.ty.sort(vc.ty.strip(f["targs"][0]))
    st = {}
    vc.contracts = [transposer_contract(st), (lambda fr: fr["q"].startswith("TAT::timer"), lambda vc, fr, obj, args, loc: Opaque("timer"))]
    vc.assumptions = set()

    def body():
        vc.reset()
        src, dst = [vc.fresh(n, vc.ty.seqsort(es)) for n in ("src", "dst")]
        a = [vc.symbolic(n, t) for n, t in zip(("plan_s2d", "plan_d2s", "dims_s", "dims_d", "lead_s", "lead_d", "rank", "total_size", "parity"), tks[2:])]
        b = st["b"] = Blocks(vc, a, tks)
        total, parity = a[7], a[8]
        first = "t" not in st
        th = theory(vc, b, st) if first else st["t"]
        z = vc.choose(3)
        vc.assume(th.nn)
        if z == 0:
            # a block of rank 0 has one entry
            vc.assume(z3.And(b.r == 0, total == 1))
        elif z == 1:
            # a dimension is 0: there is nothing to move
            vc.assume(z3.And(b.r >= 1, total == 0))
        else:
            pre = [p for _, p in b.pre(vc, th, st["inbox"], src, dst, total)]
            for p in pre:
                vc.assume(p)
            vc.assume(total >= 1)
            vc.assume(st["inbox"](b.z))
            if "facts" not in st:
                st["facts"] = True
                pc = list(vc.pc)
                n0 = len(vc.axioms)
                facts(vc, b, st, src, dst, pc)
                new = [q for q in vc.axioms if q[2].startswith(("range", "comp in"))]
                vc.axioms = [q for q in vc.axioms if not q[2].startswith(("range", "comp in", "injective"))]
                st["facts"] = [q[1] for q in new]
            for q in st["facts"]:
                vc.assume(q)
            vc.assume(st["inbox_s"](st["comp"](b.z)))
        vc.assume(z3.And(ln(src) >= total, ln(dst) >= total, ln(src) < 2**60, ln(dst) < 2**60))
        slv, dlv = vc.new_lv(src), vc.new_lv(dst)
        P = lambda lv: vc.new_lv(Ptr(lv, I(0), "seq"))
        vc.invoke(f, [P(slv), P(dlv)] + [vc.new_lv(v) for v in a], None, "")
        if z == 1:
            vc.prove("post: nothing is written", vc.load(dlv) == dst)
        else:
            vc.prove("post: the entry is at its place, with the sign asked for", moved(vc, st, src, vc.load(dlv), vc.tobool(parity)))
        vc.prove("frame: the source is not changed", vc.load(slv) == src)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [light_candidates]
    vc.explore(body)


def matrix_spec(vc, f):
    tks = [vc.ty.strip(p["type"]) for p in f["params"]]
    vc.merge_ifs = False
    es = vc.ty.sort(vc.ty.strip(f["targs"][0]))
    st = {}

    def h(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        g = vc.ir.funcs.get(fr.get("fn"), fr)
        th, z, m, n = st["t"], st["z"], st["m"], st["n"]
        ps = [vc.rv(a) for a in args[:5]]
        r = vc.rv(args[5])
        src, dst, dim, ls, ld = [vc.load(p.lv) for p in ps]
        vc.prove("kernel requires: lists of length 2 from their beginnings", z3.And(r == 2, ln(dim) >= 2, ln(ls) >= 2, ln(ld) >= 2, *[p.idx == 0 for p in ps]), loc)
        d, l, e = arr(dim), arr(ls), arr(ld)
        D, L, E = [lambda k, q=q: sel(q, k) for q in (d, l, e)]
        vc.prove("kernel requires: dimensions", z3.And(D(0) >= 1, D(1) >= 1, D(0) < 2**62, D(1) < 2**62), loc)
        inb = lambda x: z3.And(0 <= x[0], x[0] < D(0), 0 <= x[1], x[1] < D(1))
        off = lambda q, x: x[0] * sel(q, 0) + x[1] * sel(q, 1)
        x = z3.Ints("x0 x1")
        vc.prove("kernel requires: strides fit", z3.And(*[z3.And(0 <= q(k), q(k) < 2**62, D(k) * q(k) < 2**62) for q in (L, E) for k in (0, 1)]), loc)
        vc.prove("kernel requires: the source covers the box", z3.Implies(inb(x), z3.And(0 <= off(l, x), off(l, x) < ln(src))), loc)
        vc.prove("kernel requires: the destination covers the box", z3.Implies(inb(x), z3.And(0 <= off(e, x), off(e, x) < ln(dst))), loc)
        vc.prove("kernel requires: no two indices share a destination", z3.Implies(z3.And(inb(x), inb(z), off(e, x) == off(e, z)), z3.And(x[0] == z[0], x[1] == z[1])), loc)
        vc.prove("kernel requires: the index is one of the box", inb(z), loc)
        new = vc.fresh("moved", dst.sort())
        v = sel(arr(src), off(l, z))
        vc.assume(ln(new) == ln(dst))
        vc.assume(sel(arr(new), off(e, z)) == (uf("fneg_" + es.name(), es, es)(v) if targ(g, 1) else v))
        vc.write(ps[1].lv, new)

    vc.contracts = [(lambda fr: fr["q"] == "TAT::tensor_transpose_kernel", h)]

    def body():
        vc.reset()
        m, n = [vc.symbolic(s, t) for s, t in zip("mn", tks)]
        src, dst = [vc.fresh(s, vc.ty.seqsort(es)) for s in ("src", "dst")]
        z = z3.Ints("z0 z1")
        st.update(t=None, z=z, m=m, n=n)
        vc.assume(z3.And(m >= 1, n >= 1, m < 2**62, n < 2**62, m * n < 2**62, ln(src) == m * n, ln(dst) == m * n))
        vc.assume(z3.And(0 <= z[0], z[0] < m, 0 <= z[1], z[1] < n))
        slv, dlv = vc.new_lv(src), vc.new_lv(dst)
        P = lambda lv: vc.new_lv(Ptr(lv, I(0), "seq"))
        vc.invoke(f, [vc.new_lv(m), vc.new_lv(n), P(slv), P(dlv)], None, "")
        vc.prove("post: entry (i,j) of the m x n matrix is entry (j,i) of the n x m result", sel(arr(vc.load(dlv)), z[1] * m + z[0]) == sel(arr(src), z[0] * n + z[1]))
        vc.prove("frame: the source is not changed", vc.load(slv) == src)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [light_candidates]
    vc.explore(body)


SPECS = [
    ("kernel", "TAT::tensor_transpose_kernel", kernel_spec),
    ("simple", "TAT::simple_transpose", simple_spec),
    ("do_transpose", "TAT::do_transpose", do_spec),
    ("matrix_transpose", "TAT::matrix_transpose", matrix_spec),
]


def select(ir, name, q):
    fs = ir.find(q)
    if name == "kernel":
        # a line of length 0 never occurs (dimensions are at least 1)
        fs = [f for f in fs if targ(f, 3) != "TAT::Integer<0UL>"]
        if os.environ.get("VERIF_TIER", "quick") != "thorough":
            # any line length at run time, and three of the lengths known at compile time (all of them: thorough)
            fs = [f for f in fs if not str(targ(f, 3)).endswith("UL>") or targ(f, 3) in ("TAT::Integer<1UL>", "TAT::Integer<3UL>", "TAT::Integer<16UL>")]
        return sorted(fs, key=lambda f: (bool(targ(f, 2)), str(targ(f, 3))))
    return fs
