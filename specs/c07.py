"""C07 element access: the address computed for a multi-index is its row-major position; the symmetries are those asked for;
missing names and segments throw."""
import z3
from tatv.engine import *
from tatv.lib import *
from tatv import stdmodels as sm

TU = "item.cpp"
ROOTS = r"TAT::(get_.*for_get_item|Tensor.*::(at|const_at|block|const_block))"
BIG = (1 << 63) - 1


def parts(vc, v, tk):
    """(symmetry, index) of a position value; symmetry is None for tensors without symmetry"""
    if vc.ty.kind(tk) == "int":
        return None, v
    fs = vc.ty.fields(tk)
    if len(fs) == 2 and vc.ty.T(vc.ty.strip(tk)).get("name") == "std::tuple":
        return vc.get(v, ("f", fs[0][0])), vc.get(v, ("f", fs[1][0]))
    return v, None


class St:
    pass


def world(vc, f, present=True):
    """position, names, edges and the ghost multi-index"""
    vc.ty.atoms.add("std::basic_string")
    s = St()
    tks = [vc.ty.strip(p["type"]) for p in f["params"]]
    s.position = vc.symbolic("position", tks[0])
    s.names = vc.symbolic("names", tks[1])
    s.core = vc.symbolic("core", tks[2]) if len(tks) > 2 else None
    s.n = ln(s.names)
    vc.assume(z3.And(s.n <= 65534))
    kt, vt = vc.ty.mapkv(tks[0])
    pi = z3.Function("pi", Int, Int)
    s.pi = pi
    K = lambda p: z3.Select(acc(s.position, 0), p)
    V = lambda p: z3.Select(acc(s.position, 1), p)
    s.name = lambda k: z3.Select(arr(s.names), k)
    s.sym = lambda k: parts(vc, V(pi(k)), vt)[0]
    s.pos = lambda k: parts(vc, V(pi(k)), vt)[1]
    vc.assume(sm.map_distinct(s.position))
    s.k0 = z3.Int("k0")
    k = z3.Int("k")
    here = lambda k: z3.And(pi(k) >= 0, pi(k) < ln(s.position), K(pi(k)) == s.name(k))
    p = z3.Int("p")
    if present:
        vc.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.n), here(k)), patterns=[s.name(k)]))
    else:
        # leg k0 is the first that is missing
        vc.assume(z3.And(0 <= s.k0, s.k0 < s.n))
        vc.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.k0), here(k)), patterns=[s.name(k)]))
        vc.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(s.position)), K(p) != s.name(s.k0)), patterns=[K(p)]))
    if s.core is not None:
        ct = tks[2]
        ef = [(n, t) for n, t in vc.ty.fields(ct) if n == "edges"]
        s.edges = vc.get(s.core, ("f", "edges"))
        s.et = vc.ty.elem(ef[0][1])
        vc.assume(ln(s.edges) == s.n)
        mt = [(n, t) for n, t in vc.ty.fields(s.et) if n == "map"]
        s.emap = lambda k: vc.get(z3.Select(arr(s.edges), k), ("f", "map"))
        s.ei = z3.Function("ei", Int, Int)
        EK = lambda k, p: z3.Select(acc(s.emap(k), 0), p)
        s.dim = lambda k: z3.Select(acc(s.emap(k), 1), s.ei(k))
        q = z3.Int("q")
        s.EK = EK
        vc.assume(z3.ForAll([k, p, q], z3.Implies(z3.And(0 <= k, k < s.n, 0 <= p, p < ln(s.emap(k)), 0 <= q, q < ln(s.emap(k)), EK(k, p) == EK(k, q)), p == q), patterns=[z3.MultiPattern(EK(k, p), EK(k, q))]))
    return s


def segments(vc, s, upto):
    k = z3.Int("k")
    has = lambda k: z3.And(s.ei(k) >= 0, s.ei(k) < ln(s.emap(k)), (s.EK(k, s.ei(k)) == s.sym(k)) if vc.ty.kind(s.vt) != "int" else z3.And(s.ei(k) == 0, ln(s.emap(k)) == 1))
    vc.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto), has(k)), patterns=[z3.Select(arr(s.edges), k)]))


def ghosts(vc, s, st):
    P = st.setdefault("P", None)
    if P is None:
        st["P"] = define_prefix(vc, "prod", Int, I(1), lambda k, x: x * s.dim(k))
        st["O"] = define_prefix(vc, "rowmajor", Int, I(0), lambda k, x: x * s.dim(k) + s.pos(k))


def small_lemmas(vc, st):
    if "lem" in st:
        return
    st["lem"] = 1
    a, b, c, d, e = z3.Ints("a b c d e")
    # one step of the row-major address: stays below the product, and determines quotient and remainder
    lemma(vc, "step stays inside", z3.ForAll([a, b, c, d], z3.Implies(z3.And(0 <= a, a < b, 0 <= c, c < d), z3.And(a * d + c < b * d, a * d + c >= 0, a * d >= 0)), patterns=[z3.MultiPattern(a * d + c, b * d)]), axiom=False)
    lemma(vc, "step is one-to-one", z3.ForAll([a, b, c, d, e], z3.Implies(z3.And(0 <= c, c < d, 0 <= e, e < d, a * d + c == b * d + e), z3.And(a == b, c == e))), axiom=False)


def spec_offset(vc, f):
    st = {}
    if len(f["params"]) != 3:
        raise Unsupported("parameters")
    vt = vc.ty.mapkv(vc.ty.strip(f["params"][0]["type"]))[1]

    def body():
        vc.reset()
        s = world(vc, f)
        s.vt = vt
        segments(vc, s, s.n)
        ghosts(vc, s, st)
        P, O = st["P"], st["O"]
        k = z3.Int("k")
        vc.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.n), z3.And(s.pos(k) >= 0, s.pos(k) < s.dim(k))), patterns=[s.pi(k)]))
        vc.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= s.n), P(k) <= BIG), patterns=[P(k)]))
        if "bound" not in st:
            st["bound"] = 1
            small_lemmas(vc, st)
            hyp = list(vc.pc)
            m = z3.Int("k")
            a, b, c, d = z3.Ints("a b c d")
            stepax = z3.Implies(z3.And(0 <= O(m), O(m) < P(m), 0 <= s.pos(m), s.pos(m) < s.dim(m)), z3.And(O(m) * s.dim(m) + s.pos(m) < P(m) * s.dim(m), O(m) * s.dim(m) + s.pos(m) >= 0, O(m) * s.dim(m) >= 0, P(m) * s.dim(m) >= P(m)))
            lemma(vc, "one step of the address", z3.Implies(z3.And(0 <= a, a < b, 0 <= c, c < d), z3.And(a * d + c < b * d, a * d + c >= 0, a * d >= 0, b * d >= b)), axiom=False)
            ok = induct(vc, "address stays inside the block", lambda m: z3.Implies(m <= s.n, z3.And(0 <= O(m), O(m) < P(m))), 0, extra=hyp + [stepax])
            vc.axioms = [x for x in vc.axioms if x[2] != "address stays inside the block"]
            if ok:
                st["in"] = lambda: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= s.n), z3.And(0 <= O(k), O(k) < P(k))), patterns=[O(k)])
            # the address is one-to-one: two multi-indices of the same block with the same address are equal
            p2 = z3.Function("pos2", Int, Int)
            O2 = define_prefix(vc, "rowmajor2", Int, I(0), lambda k, x: x * s.dim(k) + p2(k))
            inr = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.n), z3.And(p2(k) >= 0, p2(k) < s.dim(k))), patterns=[p2(k)])
            one = z3.Implies(z3.And(0 <= s.pos(m), s.pos(m) < s.dim(m), 0 <= p2(m), p2(m) < s.dim(m), O(m) * s.dim(m) + s.pos(m) == O2(m) * s.dim(m) + p2(m)), z3.And(O(m) == O2(m), s.pos(m) == p2(m)))
            j = z3.Int("j")
            induct(vc, "different multi-indices have different addresses", lambda m: z3.Implies(z3.And(m <= s.n, O(m) == O2(m)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), s.pos(j) == p2(j)), patterns=[p2(j)])), 0, extra=hyp + [inr, one])
            vc.axioms = [x for x in vc.axioms if x[2] != "different multi-indices have different addresses"]
        st["s"] = s
        if "in" in st:
            vc.assume(st["in"]())  # proved above
        try:
            r = vc.rv(vc.invoke(f, [vc.new_lv(s.position, vc.ty.strip(f["params"][0]["type"])), vc.new_lv(s.names), vc.new_lv(s.core, vc.ty.strip(f["params"][2]["type"]))], None, ""))
        except ThrowEx:
            vc.prove("post: an element that exists is found", z3.BoolVal(False))
            return
        if vc.ty.kind(vt) == "int":
            off = r
        else:
            off = vc.get(r, ("f", "1"))
            sy = vc.get(r, ("f", "0"))
            vc.prove("post: one quantum number per leg", ln(sy) == s.n)
            vc.prove("post: the quantum number of each leg is the one given under its name", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.n), z3.Select(arr(sy), k) == s.sym(k)), patterns=[z3.Select(arr(sy), k)]))
        vc.prove("post: the offset is the row-major position of the multi-index", off == O(s.n))
        vc.prove("post: the offset is inside the block", z3.And(off >= 0, off < P(s.n)))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates, cands(st)]
    vc.explore(body)


def cands(st):
    def g(vc, sc):
        out = []
        s = st["s"]
        k = z3.Int("k")
        posn = sc.ints()
        for n_, g_, m in sc.seqs():
            if not m:
                continue
            for i_n, i, im in posn:
                if not im:
                    continue
                e = arr(g_(vc)).sort().range()
                el = []
                if e == Int and s.core is not None:
                    el = [("pos", s.pos), ("dim", s.dim)]
                    for nm, fn in el:
                        out.append(("%s[..%s]==%s" % (n_, i_n, nm), lambda vc, g_=g_, i=i, fn=fn: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i(vc)), z3.Select(arr(g_(vc)), k) == fn(k)), patterns=[z3.Select(arr(g_(vc)), k)])))
                elif st.get("symsort") is not None or s.sym(I(0)) is not None:
                    if s.sym(I(0)).sort() == e:
                        out.append(("%s[..%s]==sym" % (n_, i_n), lambda vc, g_=g_, i=i: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i(vc)), z3.Select(arr(g_(vc)), k) == s.sym(k)), patterns=[z3.Select(arr(g_(vc)), k)])))
                    if e == Int:
                        pass
        if "O" in st:
            O = st["O"]
            for a_n, a, am in posn:
                for i_n, i, im in posn:
                    if am and im and a_n != i_n:
                        out.append(("%s==O(%s)" % (a_n, i_n), lambda vc, a=a, i=i: a(vc) == O(i(vc))))
        for i_n, i, im in posn:
            if im:
                out.append(("%s<=k0" % i_n, lambda vc, i=i: i(vc) <= s.k0))
                out.append(("%s<=n" % i_n, lambda vc, i=i: i(vc) <= s.n))
        for p_n, p, pm in sc.ptrs():
            if pm:
                out.append(("%s<=n" % p_n, lambda vc, p=p: z3.And(p(vc).idx >= 0, p(vc).idx <= s.n)))
                out.append(("%s<=k0" % p_n, lambda vc, p=p: p(vc).idx <= s.k0))
                for n_, g_, m in sc.seqs():
                    if m and s.sym(I(0)) is not None and arr(g_(vc)).sort().range() == s.sym(I(0)).sort():
                        out.append(("len(%s)==%s" % (n_, p_n), lambda vc, p=p, g_=g_: ln(g_(vc)) == p(vc).idx))
                        out.append(("%s[..%s]==sym" % (n_, p_n), lambda vc, g_=g_, p=p: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p(vc).idx), z3.Select(arr(g_(vc)), k) == s.sym(k)), patterns=[z3.Select(arr(g_(vc)), k)])))
        return out

    return g


def spec_missing(vc, f):
    """a leg name that is not given is reported"""
    st = {}
    vt = vc.ty.mapkv(vc.ty.strip(f["params"][0]["type"]))[1]

    def body():
        vc.reset()
        s = world(vc, f, present=False)
        s.vt = vt
        st["s"] = s
        a = [vc.new_lv(s.position, vc.ty.strip(f["params"][0]["type"])), vc.new_lv(s.names)]
        if s.core is not None:
            segments(vc, s, s.n)
            a.append(vc.new_lv(s.core, vc.ty.strip(f["params"][2]["type"])))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]
        try:
            vc.invoke(f, a, None, "")
        except ThrowEx:
            return
        vc.prove("post: a missing leg name is reported", z3.BoolVal(False))

    vc.cand_gens = [generic_candidates, cands(st)]
    vc.explore(body)


def spec_nosegment(vc, f):
    """a quantum number that is not on its leg is reported"""
    st = {}
    vt = vc.ty.mapkv(vc.ty.strip(f["params"][0]["type"]))[1]

    def body():
        vc.reset()
        s = world(vc, f)
        s.vt = vt
        st["s"] = s
        p = z3.Int("p")
        vc.assume(z3.And(0 <= s.k0, s.k0 < s.n))
        segments(vc, s, s.k0)
        vc.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(s.emap(s.k0))), s.EK(s.k0, p) != s.sym(s.k0)), patterns=[s.EK(s.k0, p)]))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]
        try:
            vc.invoke(f, [vc.new_lv(s.position, vc.ty.strip(f["params"][0]["type"])), vc.new_lv(s.names), vc.new_lv(s.core, vc.ty.strip(f["params"][2]["type"]))], None, "")
        except ThrowEx:
            return
        vc.prove("post: a quantum number that is not on its leg is reported", z3.BoolVal(False))

    vc.cand_gens = [generic_candidates, cands(st)]
    vc.explore(body)


def spec_block(vc, f):
    st = {}

    def body():
        vc.reset()
        s = world(vc, f)
        st["s"] = s
        try:
            sy = vc.rv(vc.invoke(f, [vc.new_lv(s.position, vc.ty.strip(f["params"][0]["type"])), vc.new_lv(s.names)], None, ""))
        except ThrowEx:
            vc.prove("post: a block whose quantum numbers are all given is found", z3.BoolVal(False))
            return
        k = z3.Int("k")
        vc.prove("post: one quantum number per leg", ln(sy) == s.n)
        vc.prove("post: the quantum number of each leg is the one given under its name", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.n), z3.Select(arr(sy), k) == s.sym(k)), patterns=[z3.Select(arr(sy), k)]))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates, cands(st)]
    vc.explore(body)


SPECS = [
    ("element offset", "TAT::get_block_and_offset_for_get_item", spec_offset),
    ("element offset (no symmetry)", "TAT::get_offset_for_get_item", spec_offset),
    ("missing name", "TAT::get_block_and_offset_for_get_item", spec_missing),
    ("missing name (no symmetry)", "TAT::get_offset_for_get_item", spec_missing),
    ("missing segment", "TAT::get_block_and_offset_for_get_item", spec_nosegment),
    ("quantum numbers of a block", "TAT::get_block_for_get_item", spec_block),
    ("missing name of a block", "TAT::get_block_for_get_item", spec_missing),
]
