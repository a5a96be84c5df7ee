"""shared by C12 and C15: tensors that may share a core, element-wise operations, and where they write"""
import z3
from tatv.engine import *
from tatv.lib import *
from tatv import stdmodels as sm

TU = "elem.cpp"
ROOTS = r"TAT::(operator(\+|-|\*|/)=?|Tensor::(at|const_at|block|const_block|transform|set|zero|map|copy|conjugate|to|same_shape))"


def is_tensor(vc, tk):
    t = vc.ty.T(vc.ty.strip(tk))
    return t["k"] == "rec" and t["name"] == "TAT::Tensor"


def core_type(vc, tk):
    return vc.ty.pointee(dict(vc.ty.fields(tk))["core"])


def setup(vc, tks, edges_atom=True):
    vc.merge_ifs = False
    vc.ty.atoms.add("std::basic_string")
    for tk in tks:
        ct = core_type(vc, tk)
        f = dict(vc.ty.fields(ct))
        kt, vt = vc.ty.mapkv(f["blocks"])
        vc.ty.atoms.add(vc.ty.atom_key(kt))
        vc.ty.atoms.add(vc.ty.atom_key(dict(vc.ty.fields(tk))["names"]))
        if edges_atom:
            vc.ty.atoms.add(vc.ty.atom_key(f["edges"]))


class Ten:
    """a tensor on entry: lv of the object, cell and contents of its core"""

    def __init__(self, vc, name, tk, share=None):
        v = vc.symbolic(name, tk)
        self.tk = tk
        if share is not None:
            v = vc.put(v, (("f", "core"),), Ptr(LV(share.cell)))
            self.uc = share.uc
        self.lv = vc.new_lv(v, tk)
        self.cell = vc.load(self.lv.f("core")).lv.cell
        self.core0 = vc.store[self.cell]
        self.obj0 = v
        if share is None:
            self.uc = vc.fresh(name + "_owners", Int)
            vc.assume(self.uc >= 1)
            vc.use_counts[self.cell] = self.uc
            B = self.blocks0(vc)
            p = z3.Int("p")
            vc.assume(z3.And(ln(B) >= 0, ln(B) < (1 << 62)))
            vc.assume(z3.ForAll([p], z3.And(ln(z3.Select(acc(B, 1), p)) >= 0, ln(z3.Select(acc(B, 1), p)) < (1 << 62)), patterns=[z3.Select(acc(B, 1), p)]))
            vc.assume(sm.map_distinct(B))

    def blocks0(self, vc):
        return vc.get(self.core0, ("f", "blocks"))

    def now(self, vc):
        """cell and contents of the core the tensor refers to now"""
        p = vc.load(self.lv.f("core"))
        return p.lv.cell, vc.store[p.lv.cell]


def K(B, p):
    return z3.Select(acc(B, 0), p)


def V(B, p):
    return z3.Select(acc(B, 1), p)


def E(B, p, q):
    return z3.Select(arr(V(B, p)), q)


def frame_in_place(vc, T, others=()):
    """T was changed in place: nobody else's core is written"""
    cell, core = T.now(vc)
    if cell == T.cell:
        same = core is T.core0 or (isinstance(core, z3.ExprRef) and core.eq(T.core0))
        if not same:
            vc.prove("post: shared data is never written", T.uc == 1)
    else:
        o = vc.store[T.cell]
        vc.prove("post: shared data is never written", o == T.core0)
    for O in others:
        if O.cell != T.cell:
            vc.prove("post: the other operand's data is unchanged", vc.store[O.cell] == O.core0)
        vc.prove("post: the other operand still refers to its data", z3.BoolVal(O.now(vc)[0] == O.cell) if O.lv.cell != T.lv.cell else z3.BoolVal(True))


def frame_const(vc, ops, result=None):
    """an operation that returns a new tensor changes no operand"""
    for O in ops:
        vc.prove("post: the operand's data is unchanged", vc.store[O.cell] == O.core0)
        vc.prove("post: the operand refers to the same data", z3.BoolVal(O.now(vc)[0] == O.cell))
        o, n = O.obj0, vc.load(O.lv)
        for fn in ("names", "name_to_index"):
            a, b = vc.get(o, ("f", fn)), vc.get(n, ("f", fn))
            vc.prove("post: the operand's names are unchanged", a == b if isinstance(a, z3.ExprRef) else z3.BoolVal(a is b))


def transpose_contract(st):
    """Tensor::transpose(names) by its contract (C04): a new tensor with those names, or an error"""

    def h(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        if vc.choose(2) == 1:
            raise ThrowEx("transpose")
        lv = vc.as_lv(obj)
        tk = vc.ty.strip(fr["cls"])
        T = Ten(vc, "transposed", tk)
        v = vc.load(T.lv)
        tg = vc.rv(args[0])
        if not (isinstance(tg, z3.ExprRef) and tg.sort() == vc.get(v, ("f", "names")).sort()):
            raise Unsupported("target names")
        v = vc.put(v, (("f", "names"),), tg)
        src = vc.load(lv)
        vc.store[T.lv.cell] = v
        T.obj0 = v
        st.setdefault("transposed", []).append((lv.cell, tg, T))
        vc.use_counts[T.cell] = I(1)
        return v

    return (lambda fr: fr["q"] == "TAT::Tensor::transpose", h)


def ctor_contract(st):
    """Tensor(names, edges) by its contract (C03): a new tensor with those names whose blocks are determined by the edges"""

    def h(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        tk = vc.ty.strip(fr["cls"])
        names, edges = vc.rv(args[0]), vc.rv(args[1])
        if len(args) > 2 and not z3.is_false(z3.simplify(vc.rv(args[2]))):
            raise Unsupported("auto_reverse")
        R = Ten(vc, "made", tk)
        v = vc.load(R.lv)
        if not (isinstance(names, z3.ExprRef) and names.sort() == vc.get(v, ("f", "names")).sort()):
            raise Unsupported("names of a new tensor")
        if not (isinstance(edges, z3.ExprRef) and edges.sort() == vc.get(R.core0, ("f", "edges")).sort()):
            raise Unsupported("edges of a new tensor")
        v = vc.put(v, (("f", "names"),), names)
        core = vc.put(R.core0, (("f", "edges"),), edges)
        vc.store[R.cell] = core
        R.core0, R.obj0 = core, v
        vc.use_counts[R.cell] = I(1)
        st.setdefault("made", []).append(R)
        if st.get("on_made"):
            st["on_made"](R, names, edges)
        return v

    return (lambda fr: fr["q"] == "TAT::Tensor::Tensor" and len(fr.get("ptypes", [])) >= 2, h)


def same_shape_fact(vc, A, B, fi, eqv):
    """C03: equal edges, equal blocks: block p of A is block fi(p) of B, of the same length"""
    p = z3.Int("p")
    n = ln(A)
    return z3.Implies(eqv, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= fi(p), fi(p) < ln(B), K(B, fi(p)) == K(A, p), ln(V(B, fi(p))) == ln(V(A, p)))), patterns=[K(A, p)]))


def progress(st):
    """candidates: elements before (block i, element j) are done, the others are as on entry"""

    def g(vc, sc):
        out = []
        if st.get("done") is None:
            return out
        cur, n0, len0, key0, done, old = st["cur"], st["n"], st["len"], st["key"], st["done"], st["old"]
        p, q = z3.Ints("p q")

        def base(vc):
            B = cur(vc)
            return z3.And(ln(B) == n0, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n0), z3.And(K(B, p) == key0(p), ln(V(B, p)) == len0(p))), patterns=[V(B, p)]), acc(B, 0) == st["keys"])

        out.append(("keys and lengths of the blocks", base))
        if st.get("edges") is not None:
            ec, e0 = st["edges"]
            out.append(("edges unchanged", lambda vc: vc.get(vc.store[ec], ("f", "edges")) == e0))
        ints = [("0", lambda vc: I(0), False)] + [x for x in sc.ints()]

        def form(i, j):
            def h(vc):
                B = cur(vc)
                I_, J_ = i(vc), j(vc)
                return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < n0, 0 <= q, q < len0(p)), E(B, p, q) == z3.If(z3.Or(p < I_, z3.And(p == I_, q < J_)), done(p, q), old(p, q))), patterns=[E(B, p, q)])

            return h

        its = []
        for n_, g_, m in sc.ptrs():
            try:
                P = g_(vc)
            except Exception:
                continue
            if P.kind == "map" and P.idx is not None:
                its.append((n_, lambda vc, g_=g_: g_(vc).idx, m))
                if m:
                    out.append(("0<=%s<=n" % n_, lambda vc, g_=g_: z3.And(g_(vc).idx >= 0, g_(vc).idx <= n0)))
        qs = list(ints)
        for n_, g_, m in sc.ptrs():
            try:
                P = g_(vc)
            except Exception:
                continue
            if P.kind == "seq" and P.idx is not None and m:
                qs.append((n_, lambda vc, g_=g_: g_(vc).idx, m))
        if st.get("perm") is not None:
            for i_n, i, im in its:
                out.append(("done in the order of the operand up to %s" % i_n, lambda vc, i=i: z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < n0, 0 <= q, q < len0(p)), E(cur(vc), p, q) == z3.If(st["perm"](p) < i(vc), done(p, q), old(p, q))), patterns=[E(cur(vc), p, q)])))
        for i_n, i, im in its:
            for j_n, j, jm in qs:
                out.append(("done up to (%s,%s)" % (i_n, j_n), form(i, j)))
        return out

    return g


def shape_of(vc, st, T):
    """C03 for a tensor made from T's edges: the same blocks. Sets up fi: block of the new tensor -> block of T"""
    fi, gi = z3.Function("fi", Int, Int), z3.Function("gi", Int, Int)
    st["fi"], st["gi"] = fi, gi

    def on_made(R, names, edges):
        BT, BR = T.blocks0(vc), R.blocks0(vc)
        te = vc.get(T.core0, ("f", "edges"))
        eq = edges == te if edges.sort() == te.sort() else z3.BoolVal(False)
        p = z3.Int("p")
        vc.assume(z3.Implies(eq, z3.And(ln(BR) == ln(BT), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(BR)), z3.And(0 <= fi(p), fi(p) < ln(BT), gi(fi(p)) == p, K(BT, fi(p)) == K(BR, p), ln(V(BT, fi(p))) == ln(V(BR, p)))), patterns=[K(BR, p), V(BR, p)]), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(BT)), z3.And(0 <= gi(p), gi(p) < ln(BT), fi(gi(p)) == p, K(BR, gi(p)) == K(BT, p), ln(V(BT, p)) == ln(V(BR, gi(p))))), patterns=[K(BT, p), V(BT, p)]))))
        st["cur"] = lambda vc: vc.get(vc.store[R.cell], ("f", "blocks"))
        st["n"], st["keys"] = ln(BR), acc(BR, 0)
        st["len"] = lambda p: ln(V(BR, p))
        st["key"] = lambda p: K(BR, p)
        st["old"] = lambda p, q: E(BR, p, q)
        st["done"] = st["done_of"](BT)
        st["R"] = R
        st["edges"] = (R.cell, edges)

    st["on_made"] = on_made
