"""Contracts assumed for the C++ standard library (values only: capacity, addresses and allocation are not modelled)."""
import z3
from .engine import *
from . import engine as E


def _seq_index(vc, obj, idx, loc):
    lv = vc.as_lv(obj)
    c = vc.load(lv)
    idx = vc.to_int(vc.rv(idx))
    vc.bounds(c, idx, loc)
    return lv.i(idx)


def m_index(vc, fr, obj, args, loc):
    if vc.ty.kind(fr["cls"]) == "map":
        return map_index(vc, fr, obj, args, loc)
    if vc.ty.kind(fr["cls"]) == "iter":
        p = vc.rv(obj)
        return vc.deref(vc.ptrop("+", p, vc.to_int(vc.rv(args[0])), loc), loc)
    lv = _seq_index(vc, obj, args[0], loc)
    if fr["ret"] == "bool":
        return vc.load(lv)
    return lv


def m_at(vc, fr, obj, args, loc):
    if vc.ty.kind(fr["cls"]) == "map":
        return map_at(vc, fr, obj, args, loc)
    lv = vc.as_lv(obj)
    c = vc.load(lv)
    idx = vc.to_int(vc.rv(args[0]))
    if vc.branch(z3.And(idx >= 0, idx < vc.seqlen(c))):
        return lv.i(idx)
    raise ThrowEx("out_of_range")


def m_size(vc, fr, obj, args, loc):
    if fr.get("cls") and vc.ty.kind(fr["cls"]) == "atom":
        v = vc.rv(obj)
        n = uf("size_" + v.sort().name(), v.sort(), z3.IntSort())(v)
        vc.assume(z3.And(n >= 0, n < (1 << 62)))
        return n
    v = vc.rv(obj)
    return vc.seqlen(v)


def m_empty(vc, fr, obj, args, loc):
    return simp(vc.seqlen(vc.rv(obj)) == 0)


def _ptr(vc, obj, idx, kind="seq"):
    return Ptr(vc.as_lv(obj), idx, kind)


def m_begin(vc, fr, obj, args, loc):
    k = "map" if vc.ty.kind(fr["cls"]) == "map" else "seq"
    return _ptr(vc, obj, I(0), k)


def m_end(vc, fr, obj, args, loc):
    k = "map" if vc.ty.kind(fr["cls"]) == "map" else "seq"
    lv = vc.as_lv(obj)
    return Ptr(lv, vc.seqlen(vc.load(lv)), k)


def m_rbegin(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    return Ptr(lv, vc.seqlen(vc.load(lv)), "rev")


def m_rend(vc, fr, obj, args, loc):
    return Ptr(vc.as_lv(obj), I(0), "rev")


def f_begin(vc, fr, obj, args, loc):
    return Ptr(vc.as_lv(args[0]), I(0))


def f_end(vc, fr, obj, args, loc):
    lv = vc.as_lv(args[0])
    return Ptr(lv, vc.seqlen(vc.load(lv)))


def m_data(vc, fr, obj, args, loc):
    return _ptr(vc, obj, I(0))


def m_back(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    return _seq_index(vc, lv, simp(vc.seqlen(vc.load(lv)) - 1), loc)


def m_front(vc, fr, obj, args, loc):
    return _seq_index(vc, obj, I(0), loc)


def m_push_back(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    v = vc.load(lv)
    x = vc.rv(args[0]) if args else None
    if isinstance(v, PyList):
        vc.write(lv, PyList(v.v + [x]))
        return Opaque("void")
    if x is None:
        raise Unsupported("push_back()")
    if not isinstance(x, z3.ExprRef):
        raise Unsupported("push_back of %r" % (x,))
    n = ln(v)
    vc.write(lv, mkseq(v.sort(), z3.Store(arr(v), n, x), simp(n + 1)))
    return Opaque("void")


def m_emplace_back(vc, fr, obj, args, loc):
    et = vc.ty.elem(fr["cls"])
    lv = vc.as_lv(obj)
    if not args:
        m_push_back(vc, fr, obj, [vc.default(et)], loc)
    elif len(args) == 1:
        x = vc.rv(args[0])
        v = vc.load(lv)
        if isinstance(x, z3.ExprRef) and not isinstance(v, PyList) and x.sort() != arr(v).sort().range():
            raise Unsupported("emplace_back conversion")
        m_push_back(vc, fr, obj, args, loc)
    else:
        if vc.ty.kind(et) == "struct":
            vs = [vc.rv(a) for a in args]
            fs = vc.ty.fields(et)
            st = vc.norm(PyStruct({n: v for (n, _), v in zip(fs, vs)}), et)
            m_push_back(vc, fr, obj, [st], loc)
        else:
            raise Unsupported("emplace_back")
    return m_back(vc, fr, lv, [], loc)


def m_pop_back(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    v = vc.load(lv)
    n = ln(v)
    vc.prove("pop_back-nonempty@%s" % vc.short(loc), n > 0, loc, "memory")
    vc.write(lv, mkseq(v.sort(), arr(v), simp(n - 1)))
    return Opaque("void")


def m_clear(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    v = vc.load(lv)
    if isinstance(v, PyList):
        vc.write(lv, PyList([]))
    elif v.sort().name().startswith("Map_"):
        vc.write(lv, v.sort().constructor(0)(acc(v, 0), acc(v, 1), I(0)))
    else:
        vc.write(lv, mkseq(v.sort(), arr(v), I(0)))
    return Opaque("void")


def m_resize(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    v = vc.load(lv)
    n = vc.to_int(vc.rv(args[0]))
    # new elements: unspecified unless a value / value-initialising allocator; kept elements unchanged
    a = vc.fresh("resized", arr(v).sort())
    j = z3.Int("j")
    old = ln(v)
    vc.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < old, j < n), z3.Select(a, j) == z3.Select(arr(v), j)), patterns=[z3.Select(a, j)]))
    if len(args) > 1:
        x = vc.rv(args[1])
        vc.assume(z3.ForAll([j], z3.Implies(z3.And(old <= j, j < n), z3.Select(a, j) == x), patterns=[z3.Select(a, j)]))
    vc.write(lv, mkseq(v.sort(), a, n))
    return Opaque("void")


def m_swap(vc, fr, obj, args, loc):
    a, b = vc.as_lv(obj), vc.as_lv(args[0])
    x, y = vc.load(a), vc.load(b)
    vc.write(a, y)
    vc.write(b, x)
    return Opaque("void")


def f_swap(vc, fr, obj, args, loc):
    return m_swap(vc, fr, args[0], args[1:], loc)


def m_nothing(vc, fr, obj, args, loc):
    return Opaque("void")


def m_assign(vc, fr, obj, args, loc):
    vc.write(obj, conv_seq(vc, fr["cls"], vc.rv(args[0])))
    return obj


def conv_seq(vc, tkey, v):
    return v


def copy_range(vc, tkey, p, q):
    """new sequence value from iterator range [p,q)"""
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and vc.same_container(p, q)):
        raise Unsupported("range")
    src = vc.load(p.lv)
    if isinstance(src, PyList):
        return PyList(src.v[nv(simp(p.idx)):nv(simp(q.idx))])
    if p.kind == "map":
        raise Unsupported("range of map")
    s = vc.ty.sort(tkey)
    n = simp(q.idx - p.idx) if p.kind != "rev" else simp(p.idx - q.idx)
    if arr(src).sort() != z3.ArraySort(z3.IntSort(), vc.ty.sort(vc.ty.elem(tkey))):
        raise Unsupported("range conversion")
    if p.kind == "seq" and is_num(simp(p.idx)) and nv(simp(p.idx)) == 0:
        return mkseq(s, arr(src), n)
    a = vc.fresh("range", arr(src).sort())
    j = z3.Int("j")
    e = p.idx + j if p.kind == "seq" else p.idx - 1 - j
    vc.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, j) == z3.Select(arr(src), e)), patterns=[z3.Select(a, j)]))
    return mkseq(s, a, n)


def c_atom(vc, tkey, vals):
    """string-like atom from a literal, another atom, or nothing"""
    vals = [vc.rv(v) for v in vals]
    vals = [v for v in vals if not (isinstance(v, Opaque) and "allocator" in v.what)]
    if not vals:
        return vc.default(tkey)
    v = vals[0]
    if isinstance(v, Ptr) and v.lv is not None:
        v = vc.load(v.lv)
    if isinstance(v, Opaque) and v.what.startswith("str:"):
        return vc.atom_literal(tkey, v.what[4:])
    if isinstance(v, z3.ExprRef) and v.sort() == vc.ty.sort(tkey):
        return v
    if isinstance(v, Opaque) and v.what.startswith("cstr:"):
        return v.atom
    raise Unsupported("string from %r" % (v,))


def c_map(vc, tkey, fr, args, loc):
    vals = [vc.rv(vc.ev(a)) for a in args]
    m = vc.default(tkey)
    if not vals:
        return m
    v = vals[0]
    if isinstance(v, z3.ExprRef) and v.sort() == m.sort():
        return v
    if isinstance(v, z3.ExprRef) and v.sort().name().startswith("Seq_") and is_num(simp(ln(v))):
        lv = vc.new_lv(m, tkey)
        kt, vt = vc.ty.mapkv(tkey)
        for i in range(nv(simp(ln(v)))):
            e = simp(z3.Select(arr(v), I(i)))
            k, x = (vc.get(e, ("f", "first")), vc.get(e, ("f", "second"))) if vt else (e, z3.BoolVal(True))
            m = vc.load(lv)
            t = map_find_index(vc, m, k)
            if not vc.branch(t < ln(m)):
                map_insert(vc, lv, m, k, x)
        return vc.load(lv)
    if isinstance(v, Opaque):
        return m
    raise Unsupported("map ctor")


def c_vector(vc, tkey, fr, args, loc):
    vals = [vc.ev(a) for a in args]
    if vc.ty.kind(tkey) == "atom":
        return c_atom(vc, tkey, vals)
    # drop trailing allocator arguments
    pt = fr["ptypes"]
    vals = [v for v, t in zip(vals, pt) if "allocator" not in t.split("<")[0] or True]
    keep = []
    for v, t in zip(vals, pt):
        st = vc.ty.strip(t)
        nm = vc.ty.T(st).get("name", "")
        if "allocator" in nm:
            continue
        keep.append((vc.rv(v), t))
    if not keep:
        return vc.default(tkey)
    v0, t0 = keep[0]
    if isinstance(v0, Ptr):
        return copy_range(vc, tkey, v0, keep[1][0])
    k0 = vc.ty.kind(t0)
    if k0 == "seq":
        return v0
    if k0 == "int":
        n = v0
        if not vc.ty.termable(tkey):
            nn = simp(n)
            if not is_num(nn):
                raise Unsupported("python-level vector with symbolic size")
            return PyList([keep[1][0] if len(keep) > 1 else vc.default(vc.ty.elem(tkey)) for _ in range(nv(nn))])
        s = vc.ty.sort(tkey)
        et = vc.ty.elem(tkey)
        if len(keep) > 1:
            x = keep[1][0]
            a = z3.K(z3.IntSort(), x)
        elif "allocator_without_initialize" in tkey or vc.ty.T(vc.ty.strip(tkey))["name"] == "TAT::vector":
            a = vc.fresh("uninit", z3.ArraySort(z3.IntSort(), vc.ty.sort(et)))
        else:
            a = z3.K(z3.IntSort(), vc.default(et))
        return mkseq(s, a, n)
    raise Unsupported("vector ctor %s" % (pt,))


# ------------------------------------------------------------------ iterators
def it_deref(vc, fr, obj, args, loc):
    return vc.deref(vc.rv(obj), loc)


def it_arrow(vc, fr, obj, args, loc):
    return Ptr(vc.deref(vc.rv(obj), loc))


def it_inc(vc, fr, obj, args, loc):
    p = vc.rv(obj)
    n = vc.ptrop("+", p, I(1), loc)
    vc.write(obj, n)
    return p if args else obj


def it_dec(vc, fr, obj, args, loc):
    p = vc.rv(obj)
    n = vc.ptrop("-", p, I(1), loc)
    vc.write(obj, n)
    return p if args else obj


def it_cmp(op):
    def h(vc, fr, obj, args, loc):
        a, b = (args if obj is None else [obj] + args)[:2]
        return generic_cmp(vc, op, vc.rv(a), vc.rv(b), loc, fr)

    return h


def lex_lt(vc, a, b, fs):
    r = z3.BoolVal(False)
    for n in reversed(fs):
        x, y = vc.rv(vc.get(a, ("f", n))), vc.rv(vc.get(b, ("f", n)))
        x, y = vc.to_int(x), vc.to_int(y)
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


def generic_cmp(vc, op, a, b, loc, fr):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return vc.ptrop(op, a, b, loc)
    if isinstance(a, PyStruct) and isinstance(b, PyStruct):
        fs = list(a.f)
        eq = z3.And(*[vc.to_int(vc.rv(a.f[n])) == vc.to_int(vc.rv(b.f[n])) for n in fs]) if fs else z3.BoolVal(True)
        if op == "==":
            return simp(eq)
        if op == "!=":
            return simp(z3.Not(eq))
        l = lex_lt(vc, a, b, fs)
        g = lex_lt(vc, b, a, fs)
        return simp({"<": l, ">": g, "<=": z3.Not(g), ">=": z3.Not(l)}[op])
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        nm = a.sort().name()
        if nm.startswith("Seq_"):
            if op in ("==", "!="):
                eq = seq_eq(a, b)
                return eq if op == "==" else z3.Not(eq)
        elif nm.startswith("S_"):
            # std::pair / std::tuple of integers
            names = vc.ty.dts[nm]
            A = PyStruct({n: vc.get(a, ("f", n)) for n in names})
            B = PyStruct({n: vc.get(b, ("f", n)) for n in names})
            return generic_cmp(vc, op, A, B, loc, fr)
        elif a.sort().kind() == z3.Z3_UNINTERPRETED_SORT and not nm.startswith("F_"):
            if op == "==":
                return a == b
            if op == "!=":
                return a != b
        elif nm.startswith("F_"):
            return vc.fop(op, a, b, "bool")
    raise Unsupported("compare %s of %r" % (op, a))


def seq_eq(a, b):
    j = z3.Int("j")
    return z3.And(ln(a) == ln(b), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(a)), z3.Select(arr(a), j) == z3.Select(arr(b), j)), patterns=[z3.Select(arr(a), j)]))


def it_plus(vc, fr, obj, args, loc):
    a = vc.rv(obj) if obj is not None else vc.rv(args[0])
    b = vc.rv(args[0]) if obj is not None else vc.rv(args[1])
    if not isinstance(a, Ptr) and not isinstance(b, Ptr):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return vc.fop("+", a, b, fr["ret"])
        raise Unsupported("operator+")
    return vc.ptrop("+", a, b, loc)


def it_minus(vc, fr, obj, args, loc):
    vals = ([obj] if obj is not None else []) + args
    a = vc.rv(vals[0])
    if len(vals) == 1:
        return uf("fneg_" + a.sort().name(), a.sort(), a.sort())(a)
    b = vc.rv(vals[1])
    if not isinstance(a, Ptr):
        return vc.fop("-", a, b, fr["ret"])
    return vc.ptrop("-", a, b, loc)


def it_pluseq(sign):
    def h(vc, fr, obj, args, loc):
        p = vc.rv(obj)
        if isinstance(p, Ptr):
            vc.write(obj, vc.ptrop(sign, p, vc.to_int(vc.rv(args[0])), loc))
        else:
            vc.write(obj, vc.fop(sign, p, vc.rv(args[0]), fr["cls"] if "cls" in fr else fr["ret"]))
        return obj

    return h


def f_arith(op):
    def h(vc, fr, obj, args, loc):
        vals = ([obj] if obj is not None else []) + args
        vals = [vc.rv(v) for v in vals]
        if any(isinstance(v, Ptr) for v in vals):
            return vc.ptrop(op, vals[0], vals[1], loc)
        return vc.fop(op, vals[0], vals[1], fr["ret"])

    return h


# ------------------------------------------------------------------ tuple / pair
def f_get(vc, fr, obj, args, loc):
    i = None
    for a in fr.get("targs", []):
        if isinstance(a, dict) and a.get("k") == "const":
            i = int(a["v"])
            break
    if i is None:
        raise Unsupported("get<type>")
    x = args[0]
    v = vc.rv(x)
    tk = vc.ty.strip(fr["ptypes"][0])
    t = vc.ty.T(tk)
    if t.get("name") == "std::array":
        return vc.as_lv(x).i(I(i))
    name = vc.ty.fields(tk)[i][0]
    lv = vc.as_lv(x).f(name)
    y = vc.load(lv)
    if isinstance(y, LV):
        return y
    return lv


def f_tie(vc, fr, obj, args, loc):
    return PyStruct({str(i): vc.as_lv(a) for i, a in enumerate(args)})


def f_make_tuple(vc, fr, obj, args, loc):
    return vc.norm(PyStruct({str(i): vc.rv(a) for i, a in enumerate(args)}), fr["ret"])


def f_make_pair(vc, fr, obj, args, loc):
    return vc.norm(PyStruct({"first": vc.rv(args[0]), "second": vc.rv(args[1])}), fr["ret"])


def c_pair(vc, tkey, fr, args, loc):
    vs = [vc.ev(a) for a in args]
    fs = vc.ty.fields(tkey)
    if len(vs) == len(fs) and len(vs) > 0:
        return vc.norm(PyStruct({n: (v if vc.ty.T(t)["k"] == "ref" else vc.rv(v)) for (n, t), v in zip(fs, vs)}), tkey)
    if len(vs) == 1:
        v = vc.rv(vs[0])
        if isinstance(v, z3.ExprRef) and v.sort().name() in vc.ty.dts:
            ns = vc.ty.dts[v.sort().name()]
            return vc.norm(PyStruct({n: vc.get(v, ("f", m)) for (n, _), m in zip(fs, ns)}), tkey)
        if isinstance(v, PyStruct):
            return PyStruct({n: x for (n, _), x in zip(fs, v.f.values())})
    if not vs:
        return vc.default(tkey)
    raise Unsupported("pair ctor")


# ------------------------------------------------------------------ map
def map_find_index(vc, m, k, loc=""):
    """index of key k in map m, len(m) when absent; keys are pairwise distinct (std::map invariant)"""
    f = uf("mfind_" + m.sort().name(), m.sort(), k.sort(), z3.IntSort())
    t = f(m, k)
    j = z3.Int("j")
    n = ln(m)
    keys = acc(m, 0)
    vc.assume(z3.And(t >= 0, t <= n, z3.Implies(t < n, z3.Select(keys, t) == k)))
    vc.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, z3.Select(keys, j) == k), t == j), patterns=[z3.Select(keys, j)]))
    return t


def map_distinct(m):
    """invariant of std::map / std::set: no key twice"""
    p, q = z3.Ints("p q")
    K = lambda i: z3.Select(acc(m, 0), i)
    return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < ln(m), 0 <= q, q < ln(m), K(p) == K(q)), p == q), patterns=[z3.MultiPattern(K(p), K(q))])


def mfind_axiom(vc, ms, ks):
    """a key that is in the map is found: forall maps and positions"""
    f = uf("mfind_" + ms.name(), ms, ks, z3.IntSort())
    m, j = z3.Const("m", ms), z3.Int("j")
    K = z3.Select(acc(m, 0), j)
    vc.add_axiom(z3.ForAll([m, j], z3.Implies(z3.And(0 <= j, j < ln(m)), z3.And(0 <= f(m, K), f(m, K) < ln(m), z3.Select(acc(m, 0), f(m, K)) == K)), patterns=[K]), "mfind", {f.name()})
    return f


def ord_of(k):
    """std::less of the keys: any countable strict order embeds in the rationals"""
    return uf("ord_" + k.sort().name(), k.sort(), z3.RealSort())(k)


def map_sorted(m):
    """invariant of std::map / std::set: keys in increasing order"""
    p, q = z3.Ints("p q")
    K = lambda i: z3.Select(acc(m, 0), i)
    return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < ln(m)), ord_of(K(p)) < ord_of(K(q))), patterns=[z3.MultiPattern(K(p), K(q))])


def map_find(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    m = vc.load(lv)
    k = vc.rv(args[0])
    return Ptr(lv, map_find_index(vc, m, k), "map")


def map_count(vc, fr, obj, args, loc):
    m = vc.rv(obj)
    return z3.If(map_find_index(vc, m, vc.rv(args[0])) < ln(m), I(1), I(0))


def map_at(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    m = vc.load(lv)
    t = map_find_index(vc, m, vc.rv(args[0]))
    if vc.branch(t < ln(m)):
        return LV(lv.cell, lv.path + (("m", t), ("f", "second")))
    raise ThrowEx("out_of_range")


def map_index(vc, fr, obj, args, loc):
    lv = vc.as_lv(obj)
    m = vc.load(lv)
    k = vc.rv(args[0])
    t = map_find_index(vc, m, k)
    if vc.branch(t < ln(m)):
        return LV(lv.cell, lv.path + (("m", t), ("f", "second")))
    kt, vt = vc.ty.mapkv(fr["cls"])
    p = map_insert(vc, lv, m, k, vc.default(vt))
    return LV(lv.cell, lv.path + (("m", p), ("f", "second")))


def map_insert(vc, lv, m, k, dflt):
    """insert absent key k: keys before keep their position, keys after shift by one"""
    p = vc.fresh_int("ins")
    n = ln(m)
    m2 = vc.fresh("map", m.sort())
    j = z3.Int("j")
    K, V, K2, V2 = acc(m, 0), acc(m, 1), acc(m2, 0), acc(m2, 1)
    vc.assume(z3.And(p >= 0, p <= n, ln(m2) == n + 1, z3.Select(K2, p) == k, z3.Select(V2, p) == dflt))
    vc.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.And(z3.Select(K2, j) == z3.Select(K, j), z3.Select(V2, j) == z3.Select(V, j))), patterns=[z3.Select(K2, j), z3.Select(V2, j)]))
    vc.assume(z3.ForAll([j], z3.Implies(z3.And(p < j, j <= n), z3.And(z3.Select(K2, j) == z3.Select(K, j - 1), z3.Select(V2, j) == z3.Select(V, j - 1))), patterns=[z3.Select(K2, j), z3.Select(V2, j)]))
    # the reverse direction, so that facts about old positions transfer
    vc.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(K2, z3.If(j < p, j, j + 1)) == z3.Select(K, j), z3.Select(V2, z3.If(j < p, j, j + 1)) == z3.Select(V, j))), patterns=[z3.Select(K, j), z3.Select(V, j)]))
    if getattr(vc, "map_order", False):
        vc.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), ord_of(z3.Select(K, j)) < ord_of(k)), patterns=[z3.Select(K, j)]))
        vc.assume(z3.ForAll([j], z3.Implies(z3.And(p <= j, j < n), ord_of(k) < ord_of(z3.Select(K, j))), patterns=[z3.Select(K, j)]))
        # the neighbours of the new key
        vc.assume(z3.And(z3.Implies(p > 0, ord_of(z3.Select(K, p - 1)) < ord_of(k)), z3.Implies(p < n, ord_of(k) < ord_of(z3.Select(K, p)))))
    vc.write(lv, m2)
    vc.last_insert = p
    return p


def map_emplace(vc, fr, obj, args, loc):
    """emplace(key, constructor arguments of the value): no effect when the key is there"""
    lv = vc.as_lv(obj)
    m = vc.load(lv)
    k = vc.rv(args[0])
    kt, vt = vc.ty.mapkv(fr["cls"])
    vs = [vc.rv(a) for a in args[1:]]
    t = map_find_index(vc, m, k)
    fs = [n for n, _ in vc.ty.fields(fr["ret"])]
    if vc.valid(t == ln(m), timeout=1000):
        vc.assume(t == ln(m))
    elif vc.branch(t < ln(m)):
        return PyStruct({fs[0]: Ptr(lv, t, "map"), fs[1]: z3.BoolVal(False)})
    if len(vs) == 1 and vc.ty.kind(vt) == "seq" and vs[0].sort() == z3.IntSort():
        x = mkseq(vc.ty.sort(vt), vc.fresh("uninit", z3.ArraySort(z3.IntSort(), vc.ty.sort(vc.ty.elem(vt)))), vs[0])
    elif len(vs) == 1 and vs[0].sort() == vc.ty.sort(vt):
        x = vs[0]
    elif not vs:
        x = vc.default(vt)
    else:
        raise Unsupported("arguments of emplace")
    p = map_insert(vc, lv, m, k, x)
    return PyStruct({fs[0]: Ptr(lv, p, "map"), fs[1]: z3.BoolVal(True)})


# ------------------------------------------------------------------ misc
def f_min(vc, fr, obj, args, loc):
    a, b = vc.rv(args[0]), vc.rv(args[1])
    return vc.new_lv(z3.If(b < a, b, a))


def f_max(vc, fr, obj, args, loc):
    a, b = vc.rv(args[0]), vc.rv(args[1])
    return vc.new_lv(z3.If(a < b, b, a))


def c_variant(vc, tkey, fr, args, loc):
    v = vc.rv(vc.ev(args[0]))
    at = vc.ty.strip(fr["ptypes"][0])
    return Variant(None, at, v)


def f_visit(vc, fr, obj, args, loc):
    c = vc.rv(args[0])
    v = vc.rv(args[1])
    if not isinstance(v, Variant) or not isinstance(c, Closure):
        raise Unsupported("visit")
    for op in c.ops:
        if vc.ty.strip(op["ptypes"][0]).replace("const ", "") == v.tkey.replace("const ", ""):
            return vc.call_closure(c, [vc.as_lv(v.v, v.tkey)], loc, op)
    raise Unsupported("visit: no operator for " + v.tkey)


def bitref_conv(vc, fr, obj, args, loc):
    return vc.rv(obj)


def bitref_assign(vc, fr, obj, args, loc):
    x = vc.rv(args[0])
    vc.write(obj, x)
    return obj


def f_copy(vc, fr, obj, args, loc):
    """std::copy(first,last,out) for sequence pointers"""
    p, q, o = [vc.rv(a) for a in args[:3]]
    if not (isinstance(p, Ptr) and isinstance(o, Ptr) and o.kind == "seq" and p.kind == "seq"):
        raise Unsupported("copy")
    n = simp(q.idx - p.idx)
    src, dst = vc.load(p.lv), vc.load(o.lv)
    vc.prove("copy-range@%s" % vc.short(loc), z3.And(n >= 0, p.idx >= 0, q.idx <= ln(src), o.idx >= 0, o.idx + n <= ln(dst)), loc, "memory")
    a = vc.fresh("copied", arr(dst).sort())
    j = z3.Int("j")
    vc.assume(z3.ForAll([j], z3.Select(a, j) == z3.If(z3.And(o.idx <= j, j < o.idx + n), z3.Select(arr(src), j - o.idx + p.idx), z3.Select(arr(dst), j)), patterns=[z3.Select(a, j)]))
    vc.write(o.lv, mkseq(dst.sort(), a, ln(dst)))
    return Ptr(o.lv, simp(o.idx + n), "seq")


def f_distance(vc, fr, obj, args, loc):
    return vc.ptrop("-", vc.rv(args[1]), vc.rv(args[0]), loc)


def f_conj(vc, fr, obj, args, loc):
    v = vc.rv(args[0])
    return uf("fconj_" + v.sort().name(), v.sort(), v.sort())(v)


def f_funcall(vc, fr, obj, args, loc):
    c = vc.rv(obj)
    if isinstance(c, Closure):
        return vc.call_closure(c, args, loc)
    raise Unsupported("operator()")


# ------------------------------------------------------------------ shared pointers
def sp_get(vc, fr, obj, args, loc):
    p = vc.rv(obj)
    if not isinstance(p, Ptr):
        raise Unsupported("shared pointer %r" % (p,))
    return p


def sp_deref(vc, fr, obj, args, loc):
    return vc.deref(sp_get(vc, fr, obj, args, loc), loc)


def sp_count(vc, fr, obj, args, loc):
    """number of owners: given by the specification for objects that exist on entry, else at least one"""
    p = sp_get(vc, fr, obj, args, loc)
    if p.lv is None:
        return I(0)
    n = vc.use_counts.get(p.lv.cell)
    if n is None:
        n = vc.fresh("owners", z3.IntSort())
        vc.assume(n >= 1)
    return n


def sp_bool(vc, fr, obj, args, loc):
    return z3.BoolVal(sp_get(vc, fr, obj, args, loc).lv is not None)


def sp_make(vc, fr, obj, args, loc):
    """std::make_shared<T>(args): a new object nobody else owns"""
    rt = vc.ty.strip(fr["ret"])
    pt = vc.ty.pointee(rt)
    if not args:
        v = vc.default(pt)
    elif len(args) == 1 and not isinstance(vc.rv(args[0]), Ptr):
        v = vc.rv(args[0])
        if isinstance(v, z3.ExprRef) and vc.ty.termable(pt) and v.sort() != vc.ty.sort(pt):
            raise Unsupported("make_shared from another type")
    else:
        raise Unsupported("make_shared arguments")
    lv = vc.new_lv(v, pt)
    vc.last_shared = lv.cell
    return Ptr(lv)


def c_sptr(vc, tkey, fr, args, loc):
    if not args:
        return Ptr(None)
    v = vc.rv(vc.ev(args[0]))
    if isinstance(v, Ptr):
        return v
    raise Unsupported("shared_ptr ctor")


# ------------------------------------------------------------------ algorithms over ranges
def range_of(vc, p, q):
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.lv is not None and vc.same_container(p, q)):
        raise Unsupported("range")
    return p.idx if p.idx is not None else I(0), q.idx if q.idx is not None else I(0)


def elementwise(vc, lv, lo, n, term, loc):
    """container at lv: elements lo..lo+n-1 become term(k), the others stay"""
    s = vc.load(lv)
    if not isinstance(s, z3.ExprRef):
        raise Unsupported("range of a non-term container")
    vc.prove("range inside the container", z3.And(lo >= 0, n >= 0, lo + n <= ln(s)), loc, "memory")
    k = z3.Int("k")
    a2 = vc.fresh("range", arr(s).sort())
    vc.assume(z3.ForAll([k], z3.Select(a2, k) == z3.If(z3.And(lo <= k, k < lo + n), term(k), z3.Select(arr(s), k)), patterns=[z3.Select(a2, k)]))
    vc.write(lv, mkseq(s.sort(), a2, ln(s)))


def f_fill(vc, fr, obj, args, loc):
    p, q = vc.rv(args[0]), vc.rv(args[1])
    lo, hi = range_of(vc, p, q)
    v = vc.rv(args[2])
    s = vc.load(p.lv)
    es = arr(s).sort().range()
    if v.sort() != es:
        v = vc.fconst(str(es)[2:], "0") if is_num(v) and nv(v) == 0 and str(es).startswith("F_") and False else coerce(vc, v, es)
    elementwise(vc, p.lv, lo, hi - lo, lambda k: v, loc)
    return Opaque("void")


def coerce(vc, v, es):
    if v.sort() == es:
        return v
    return uf("conv_%s_%s" % (v.sort().name(), es.name()), v.sort(), es)(v)


def c_complex(vc, tkey, fr, args, loc):
    vs = [vc.rv(vc.ev(a)) for a in args]
    so = vc.ty.sort(tkey)
    if len(vs) == 1 and vs[0].sort() == so:
        return vs[0]
    bt = vc.ty.T(vc.ty.strip(tkey))["targs"][0]
    while len(vs) < 2:
        vs.append(vc.fconst(bt, "0"))
    return uf("complex_" + so.name(), vs[0].sort(), vs[1].sort(), so)(*vs)


def m_part(name):
    def h(vc, fr, obj, args, loc):
        x = vc.rv(obj) if obj is not None else vc.rv(args[0])
        return uf(name + "_" + x.sort().name(), x.sort(), vc.ty.sort(vc.ty.strip(fr["ret"])))(x)

    return h


def scalar_conv(vc, x, s0, s1):
    """the value of type s1 that x of type s0 stands for: real numbers rounded, the real part of a complex number"""
    cx = lambda t: vc.ty.T(vc.ty.strip(t)).get("name") == "std::complex"
    base = lambda t: vc.ty.T(vc.ty.strip(t))["targs"][0] if cx(t) else t
    cast = lambda v, a, b: v if vc.ty.sort(a) == vc.ty.sort(b) else uf("FloatingCast_%s_%s" % (vc.ty.sort(a).name(), vc.ty.sort(b).name()), vc.ty.sort(a), vc.ty.sort(b))(v)
    if vc.ty.sort(s0) == vc.ty.sort(s1):
        return x
    if cx(s0) and not cx(s1):
        return cast(uf("re_" + x.sort().name(), x.sort(), vc.ty.sort(base(s0)))(x), base(s0), s1)
    if cx(s1) and not cx(s0):
        b = vc.ty.sort(base(s1))
        return uf("complex_" + vc.ty.sort(s1).name(), b, b, vc.ty.sort(s1))(cast(x, s0, base(s1)), vc.fconst(base(s1), "0"))
    if not cx(s0) and not cx(s1):
        return cast(x, s0, s1)
    raise Unsupported("conversion between these types %s %s" % (s0, s1))


def f_transform(vc, fr, obj, args, loc):
    p, q, d = vc.rv(args[0]), vc.rv(args[1]), vc.rv(args[2])
    lo, hi = range_of(vc, p, q)
    src = vc.load(p.lv)
    vc.prove("source range inside the container", z3.And(lo >= 0, lo <= hi, hi <= ln(src)), loc, "memory")
    dst = vc.load(d.lv)
    dlo = d.idx if d.idx is not None else I(0)
    es = arr(dst).sort().range()
    fn = vc.rv(args[3])
    if isinstance(fn, Ptr) and fn.lv is not None:
        fn = vc.load(fn.lv)

    def call(x):
        if isinstance(fn, UFun):
            return fn.call(vc, [x])
        if isinstance(fn, Closure):
            return vc.rv(vc.call_closure(fn, [x], loc))
        if isinstance(fn, FnRef):
            return vc.rv(vc.call_fr(fn.fr, None, [x], loc))
        raise Unsupported("function passed to std::transform")

    x = vc.fresh("elem", arr(src).sort().range())
    s0 = vc.snapshot()
    keys = set(vc.store)
    before = dict(vc.store)
    t = coerce(vc, call(x), es)
    changed = [c for c in keys if vc.store[c] is not before[c]]
    vc.restore(s0)
    if changed:
        # a generator with a state of its own: any value can be written, its state can be anything
        for c in changed:
            vc.store[c] = vc.havoc_val(vc.store[c], "generator", vc.celltype.get(c))
        g = vc.fresh("generated", z3.ArraySort(z3.IntSort(), es))
        term = lambda k: z3.Select(g, k)
    else:
        term = lambda k: z3.substitute(t, (x, z3.Select(arr(src), k - dlo + lo)))
    elementwise(vc, d.lv, dlo, hi - lo, term, loc)
    return Ptr(d.lv, simp(dlo + hi - lo), d.kind)


def throw_error(vc, fr, obj, args, loc):
    raise ThrowEx("TAT_error")


def install(vc):
    M = vc.models
    for c in ("std::vector", "std::array", "std::basic_string", "TAT::vector", "std::initializer_list", "std::map", "std::set"):
        M[c + "::operator[]"] = m_index
        M[c + "::at"] = m_at
        M[c + "::size"] = m_size
        M[c + "::length"] = m_size
        M[c + "::empty"] = m_empty
        for n in ("begin", "cbegin"):
            M[c + "::" + n] = m_begin
        for n in ("end", "cend"):
            M[c + "::" + n] = m_end
        for n in ("rbegin", "crbegin"):
            M[c + "::" + n] = m_rbegin
        for n in ("rend", "crend"):
            M[c + "::" + n] = m_rend
        M[c + "::data"] = m_data
        M[c + "::back"] = m_back
        M[c + "::front"] = m_front
        M[c + "::push_back"] = m_push_back
        M[c + "::emplace_back"] = m_emplace_back
        M[c + "::pop_back"] = m_pop_back
        M[c + "::clear"] = m_clear
        M[c + "::resize"] = m_resize
        M[c + "::swap"] = m_swap
        M[c + "::reserve"] = m_nothing
        M[c + "::shrink_to_fit"] = m_nothing
        M[c + "::operator="] = m_assign
        M["ctor:" + c + "::" + c.split("::")[-1]] = c_vector
    M["ctor:std::complex::complex"] = c_complex
    M["std::complex::real"] = M["std::real"] = m_part("re")
    M["std::complex::imag"] = M["std::imag"] = m_part("im")
    M["std::conj"] = m_part("conj")
    M["std::map::emplace"] = map_emplace
    # std::forward_list: a sequence held in reverse, so that push_front appends
    c = "std::forward_list"
    for n in ("begin", "cbegin"):
        M[c + "::" + n] = m_rbegin
    for n in ("end", "cend"):
        M[c + "::" + n] = m_rend
    M[c + "::push_front"] = m_push_back
    M[c + "::clear"] = m_clear
    M[c + "::empty"] = m_empty
    M[c + "::front"] = m_back
    M[c + "::pop_front"] = m_pop_back
    M["ctor:std::forward_list::forward_list"] = lambda vc, tkey, fr, args, loc: vc.default(tkey)
    M["ctor:std::map::map"] = c_map
    M["ctor:std::set::set"] = c_map
    M["std::map::find"] = map_find
    M["std::set::find"] = map_find
    M["std::map::count"] = map_count
    M["std::set::count"] = map_count
    for it in ITERS:
        M[it + "::operator*"] = it_deref
        M[it + "::operator->"] = it_arrow
        M[it + "::operator++"] = it_inc
        M[it + "::operator--"] = it_dec
        M[it + "::operator+"] = it_plus
        M[it + "::operator-"] = it_minus
        M[it + "::operator+="] = it_pluseq("+")
        M[it + "::operator-="] = it_pluseq("-")
        M[it + "::operator[]"] = m_index
        for op in ("==", "!=", "<", ">", "<=", ">="):
            M[it + "::operator" + op] = it_cmp(op)
        M["ctor:" + it + "::" + it.split("::")[-1]] = lambda vc, tkey, fr, args, loc: vc.rv(vc.ev(args[0])) if args else Ptr(None)
    for ns in ("std", "__gnu_cxx"):
        for op in ("==", "!=", "<", ">", "<=", ">="):
            M[ns + "::operator" + op] = it_cmp(op)
        M[ns + "::operator+"] = it_plus
        M[ns + "::operator-"] = it_minus
        M[ns + "::operator*"] = f_arith("*")
        M[ns + "::operator/"] = f_arith("/")
    M["std::complex::operator+="] = it_pluseq("+")
    M["std::complex::operator-="] = it_pluseq("-")
    M["std::complex::operator*="] = it_pluseq("*")
    M["std::complex::operator/="] = it_pluseq("/")
    M["std::get"] = f_get
    M["std::tie"] = f_tie
    M["std::make_tuple"] = f_make_tuple
    M["std::make_pair"] = f_make_pair
    M["std::forward_as_tuple"] = f_tie
    M["ctor:std::pair::pair"] = c_pair
    M["ctor:std::tuple::tuple"] = c_pair
    M["ctor:std::variant::variant"] = c_variant
    M["std::visit"] = f_visit
    M["std::min"] = f_min
    M["std::max"] = f_max
    M["std::swap"] = f_swap
    M["std::begin"] = f_begin
    M["std::end"] = f_end
    M["std::copy"] = f_copy
    M["std::distance"] = f_distance
    M["std::conj"] = f_conj
    M["std::_Bit_reference::operator()conv"] = bitref_conv
    M["std::_Bit_reference::operator="] = bitref_assign
    for op, h in (("get", sp_get), ("operator->", sp_get), ("operator*", sp_deref), ("use_count", sp_count), ("operator bool", sp_bool)):
        M["std::shared_ptr::" + op] = h
        M["std::__shared_ptr::" + op] = h
        M["std::__shared_ptr_access::" + op] = h
    M["std::make_shared"] = sp_make
    M["ctor:std::shared_ptr::shared_ptr"] = c_sptr
    M["std::transform"] = f_transform
    M["std::fill"] = f_fill
    M["TAT::TAT_error"] = throw_error
    M["TAT::TAT_warning"] = m_nothing
    M["TAT::TAT_nothing"] = m_nothing
    M["TAT::timer::operator()"] = lambda vc, fr, obj, args, loc: Opaque("timer")
