"""C11 scratch memory: the bump allocator (for all states satisfying its invariant), its destruction, and the scope guard."""
import z3
from tatv.engine import *
from tatv.lib import *

TU = "pmr.cpp"
ROOTS = r"TAT::(pmr::(monotonic_buffer_resource|polymorphic_allocator|memory_resource|set_default_resource|get_default_resource).*|scope_resource::.*)"
TOP = 1 << 62  # user addresses lie below
MR = "TAT::pmr::monotonic_buffer_resource"


def raws(vc):
    """void* and byte* are addresses (integers)"""
    for k, t in vc.ir.types.items():
        if t["k"] == "ptr" and vc.ty.T(vc.ty.strip(t["to"])).get("k") in ("void",) or t["k"] == "ptr" and "std::byte" in k and vc.ty.T(t["to"])["k"] != "ptr":
            vc.ty.raw_ptr_types.add(k)
            if k.endswith(" const") and k[:-6] in vc.ir.types:
                vc.ty.raw_ptr_types.add(k[:-6])


class State:
    """the invariant of the resource, over its fields and the ghost sequence of live allocations"""

    def __init__(self, vc, this):
        g = lambda n: vc.rv(vc.get(vc.load(this), ("f", n)))
        self.cb, self.cs, self.ns = g("m_current_buffer"), g("m_current_buffer_size"), g("m_next_buffer_size")
        self.ib, self.is_ = g("m_initial_buffer"), g("m_initial_buffer_size")
        self.lst = g("m_buffer_list")
        self.buf = lambda k: vc.get(z3.Select(arr(self.lst), k), ("f", "buffer"))
        self.size = lambda k: vc.get(z3.Select(arr(self.lst), k), ("f", "size"))


def owned(s, lo, hi, w):
    """[lo,hi) lies inside region w: -1 is the initial buffer, k>=0 a buffer obtained upstream"""
    return z3.And(w >= -1, w < ln(s.lst), z3.If(w == -1, z3.And(s.ib <= lo, hi <= s.ib + s.is_), z3.And(s.buf(w) <= lo, hi <= s.buf(w) + s.size(w))))


def apart(a, n, b, m):
    return z3.Or(n == 0, m == 0, a + n <= b, b + m <= a)


def regions_ok(s):
    k = z3.Int("k")
    i, j = z3.Ints("i j")
    return z3.And(
        0 <= s.ib, s.is_ >= 0, s.ib + s.is_ < TOP,
        z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln(s.lst)), z3.And(0 <= s.buf(k), 0 <= s.size(k), s.buf(k) + s.size(k) < TOP, apart(s.ib, s.is_, s.buf(k), s.size(k)))), patterns=[s.buf(k)]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(s.lst)), apart(s.buf(i), s.size(i), s.buf(j), s.size(j))), patterns=[z3.MultiPattern(s.buf(i), s.buf(j))]),
    )


def live_ok(s, A, N, W, n):
    """n live allocations at A(i), of N(i) bytes, inside region W(i), apart from one another and from what is still free"""
    i, j = z3.Ints("i j")
    g = lambda x: z3.And(0 <= x, x < n)
    return z3.And(
        z3.ForAll([i], z3.Implies(g(i), z3.And(N(i) >= 0, owned(s, A(i), A(i) + N(i), W(i)), apart(A(i), N(i), s.cb, s.cs))), patterns=[A(i)]),
        z3.ForAll([i, j], z3.Implies(z3.And(g(i), g(j), i < j), apart(A(i), N(i), A(j), N(j))), patterns=[z3.MultiPattern(A(i), A(j))]),
    )


def free_ok(s, w):
    return z3.And(s.cs >= 0, owned(s, s.cb, s.cb + s.cs, w))


def upstream_contract(vc, st):
    """memory_resource::allocate: a block of that many bytes, aligned to max_align_t, apart from everything owned so far (assumed of the upstream)"""

    def pred(fr):
        return fr["q"] in ("TAT::pmr::memory_resource::allocate", "TAT::pmr::memory_resource::do_allocate")

    def h(vc, fr, obj, args, loc):
        n, al = [vc.to_int(vc.rv(a)) for a in args[:2]]
        r = vc.fresh_int("upstream_block")
        s = State(vc, st["this"])
        k = z3.Int("k")
        vc.assume(z3.And(r > 0, r + n < TOP, r % 16 == 0, apart(s.ib, s.is_, r, n)))
        vc.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln(s.lst)), apart(s.buf(k), s.size(k), r, n)), patterns=[s.buf(k)]))
        # live allocations lie inside owned memory, so they are apart too (instance of the lemma 'inside-apart')
        vc.prove("upstream request asks for fundamental alignment", al >= 16, loc)
        st["obtained"] = (r, n)
        return r

    return pred, h


def spec_allocate(align):
    def spec(vc, f):
        raws(vc)
        tk = f["cls"]
        st = {}
        A, N, W = [z3.Function(x, Int, Int) for x in ("A", "N", "W")]

        def body():
            vc.reset()
            vc.assumptions = ["upstream resources return fresh blocks aligned to max_align_t below address 2^62 (new[] does)", "alignments are the fundamental ones (1..16); the specification is repeated for each"]
            st.clear()
            fs = dict(vc.ty.fields(tk))
            v = {}
            for n, t in fs.items():
                v[n] = Ptr(vc.new_lv(Opaque("upstream"))) if n == "m_upstream" else vc.symbolic(n, t)
            for n in ("m_current_buffer", "m_initial_buffer"):
                vc.assume(z3.And(v[n] >= 0, v[n] < TOP))
            this = vc.new_lv(PyStruct(v), tk)
            st["this"] = this
            s = State(vc, this)
            n, w0 = vc.fresh_int("live"), vc.fresh_int("region")
            vc.assume(n >= 0)
            vc.assume(regions_ok(s))
            vc.assume(free_ok(s, w0))
            vc.assume(live_ok(s, A, N, W, n))
            bytes_ = vc.symbolic("bytes", f["params"][0]["type"])
            vc.assume(bytes_ < TOP)
            r = vc.rv(vc.invoke(f, [bytes_, I(align)], this, ""))
            s2 = State(vc, this)
            got = st.get("obtained")
            w = z3.If(z3.BoolVal(got is not None), ln(s.lst), w0)
            vc.prove("post: aligned as requested", r % align == 0)
            vc.prove("post: what was obtained upstream is remembered with the size it was asked for, nothing else changes", z3.And(ln(s2.lst) == ln(s.lst) + 1, s2.buf(ln(s.lst)) == got[0], s2.size(ln(s.lst)) == got[1]) if got else ln(s2.lst) == ln(s.lst))
            k = z3.Int("k")
            vc.prove("post: buffers obtained before are still remembered", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln(s.lst)), z3.And(s2.buf(k) == s.buf(k), s2.size(k) == s.size(k))), patterns=[s2.buf(k)]))
            vc.prove("post: the initial buffer is the same", z3.And(s2.ib == s.ib, s2.is_ == s.is_))
            vc.prove("post: the block lies inside one owned region", owned(s2, r, r + bytes_, w))
            vc.prove("post: the block is apart from what is still free", apart(r, bytes_, s2.cb, s2.cs))
            i = vc.fresh_int("i")
            vc.assume(z3.And(0 <= i, i < n))
            vc.keepalive = A(i)
            vc.assume(A(i) == A(i))
            inst = z3.And(N(i) >= 0, owned(s, A(i), A(i) + N(i), W(i)), apart(A(i), N(i), s.cb, s.cs))
            vc.prove("live allocation (hypothesis instance)", inst)
            if got:
                vc.prove("live allocation is apart from the new buffer", apart(A(i), N(i), got[0], got[1]))
            vc.prove("post: the block is apart from every live allocation", apart(A(i), N(i), r, bytes_))
            vc.prove("post: every live allocation stays apart from what is free", apart(A(i), N(i), s2.cb, s2.cs))
            vc.prove("post: every live allocation stays inside owned memory", owned(s2, A(i), A(i) + N(i), W(i)))
            vc.prove("post: what is free lies inside one owned region", free_ok(s2, w))
            vc.prove("post: the regions stay apart", regions_ok(s2))
            vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

        vc.contracts = [upstream_contract(vc, st)]
        vc.cand_gens = [generic_candidates]
        vc.explore(body)

    return spec


def spec_ctor(vc, f):
    raws(vc)
    tk = f["cls"]

    def body():
        vc.reset()
        ib, is_ = vc.symbolic("buffer", f["params"][0]["type"]), vc.symbolic("size", f["params"][1]["type"])
        vc.assume(z3.And(ib >= 0, ib + is_ < TOP))
        this = vc.new_lv(PyStruct({n: None for n, _ in vc.ty.fields(tk)}), tk)
        up = Ptr(vc.new_lv(Opaque("upstream")))
        vc.invoke(f, [ib, is_, up][: len(f["params"])], this, "")
        s = State(vc, this)
        vc.prove("post: no upstream buffer", ln(s.lst) == 0)
        vc.prove("post: exactly the given buffer is free", z3.And(s.cb == ib, s.cs == is_, s.ib == ib, s.is_ == is_))
        vc.prove("post: invariant", z3.And(regions_ok(s), free_ok(s, I(-1))))
        if len(f["params"]) == 3:
            u = vc.get(vc.load(this), ("f", "m_upstream"))
            vc.prove("post: upstream is the given one", isinstance(u, Ptr) and u.lv.cell == up.lv.cell)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates]
    vc.explore(body)


def spec_release(vc, f):
    raws(vc)
    tk = f["cls"]
    st = {}

    def pred(fr):
        return fr["q"] in ("TAT::pmr::memory_resource::deallocate", "TAT::pmr::memory_resource::do_deallocate")

    def h(vc, fr, obj, args, loc):
        p, n = [vc.rv(a) for a in args[:2]]
        v = vc.load(st["log"])
        e = vc.norm(PyStruct({"buffer": p, "size": n}), st["et"])
        vc.write(st["log"], mkseq(v.sort(), z3.Store(arr(v), ln(v), e), ln(v) + 1))
        return Opaque("void")

    def body():
        vc.reset()
        v = {}
        for n, t in vc.ty.fields(tk):
            v[n] = Ptr(vc.new_lv(Opaque("upstream"))) if n == "m_upstream" else vc.symbolic(n, t)
            if n == "m_buffer_list":
                st["et"] = vc.ty.elem(t)
        this = vc.new_lv(PyStruct(v), tk)
        s = State(vc, this)
        st["lst"] = s.lst
        log = vc.default(next(t for n, t in vc.ty.fields(tk) if n == "m_buffer_list"))
        st["log"] = vc.new_lv(log)
        vc.invoke(f, [], this, "")
        g = vc.load(st["log"])
        k = z3.Int("k")
        vc.prove("post: as many buffers are given back upstream as were obtained", ln(g) == ln(s.lst))
        vc.prove("post: each of them once, with its address and size", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln(g)), z3.Select(arr(g), k) == z3.Select(arr(s.lst), ln(s.lst) - 1 - k)), patterns=[z3.Select(arr(g), k)]))
        if vc.spec_name == "release":
            s2 = State(vc, this)
            vc.prove("post: none is remembered any more and exactly the initial buffer is free", z3.And(ln(s2.lst) == 0, s2.cb == s.ib, s2.cs == s.is_, s2.ib == s.ib, s2.is_ == s.is_))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def cands(vc, sc):
        out = []
        lst = st["lst"]
        k = z3.Int("k")
        L = lambda vc: vc.load(st["log"])
        n = ln(lst)
        out.append(("log<=list", lambda vc: z3.And(ln(L(vc)) >= 0, ln(L(vc)) <= n)))
        out.append(("log is the reversed list", lambda vc: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln(L(vc))), z3.Select(arr(L(vc)), k) == z3.Select(arr(lst), n - 1 - k)), patterns=[z3.Select(arr(L(vc)), k)])))
        for i_n, i, im in sc.ints():
            if im:
                out.append(("%s+len(log)==n" % i_n, lambda vc, i=i: i(vc) + ln(L(vc)) == n))
                out.append(("%s==len(log)" % i_n, lambda vc, i=i: i(vc) == ln(L(vc))))
        return out

    vc.contracts = [(pred, h)]
    vc.cand_gens = [generic_candidates, cands]
    vc.explore(body)


def spec_dealloc(vc, f):
    """giving a block back early changes nothing (so no block still in use can be handed out again)"""
    raws(vc)
    tk = f["cls"]

    def body():
        vc.reset()
        v = {n: Ptr(vc.new_lv(Opaque("upstream"))) if n == "m_upstream" else vc.symbolic(n, t) for n, t in vc.ty.fields(tk)}
        this = vc.new_lv(PyStruct(v), tk)
        vc.invoke(f, [vc.symbolic("a%d" % i, p["type"]) for i, p in enumerate(f["params"])], this, "")
        w = vc.load(this)
        vc.prove("post: the resource is unchanged", z3.And(*[vc.get(w, ("f", n)) == v[n] for n in v if n != "m_upstream"]))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


def gcell(vc, name):
    for k, g in vc.ir.globals.items():
        if g.get("q", g.get("name", "")).split("::")[-1] == name:
            return k, g
    raise Unsupported("global " + name)


def spec_scope(vc, f):
    raws(vc)
    tk = f["cls"]
    vc.is_opaque_class = lambda q: False
    D = [g for g in vc.ir.funcs.values() if g["q"].startswith("TAT::scope_resource::~") and g["cls"] == tk]
    if not D:
        raise Unsupported("destructor of the scope guard not found")

    def body():
        vc.reset()
        key, g = gcell(vc, "default_resource")
        before = Ptr(vc.new_lv(Opaque("resource at entry")))
        inner = Ptr(vc.new_lv(Opaque("resource at exit")))
        cell = vc.new_cell(before, g["type"])
        gid = int(key) if isinstance(next(iter(vc.ir.globals)), int) else key
        for kk in (key, int(key) if str(key).lstrip("-").isdigit() else key):
            vc.global_cells[kk] = cell
        fs = vc.ty.fields(tk)
        init = {n: None for n, _ in fs}
        for n, t in fs:
            if vc.ty.T(t)["k"] == "array":
                init[n] = vc.symbolic(n, t)
        this = vc.new_lv(PyStruct(init), tk)
        vc.invoke(f, [], this, "")
        now = vc.store[cell]
        vc.prove("post: the default resource is the scope's own", isinstance(now, Ptr) and now.lv is not None and now.lv.cell == this.cell and now.lv.path == (("f", "resource"),))
        res = vc.get(vc.load(this), ("f", "resource"))
        up = vc.get(res, ("f", "m_upstream"))
        vc.prove("post: the scope's resource falls back on the resource at entry", isinstance(up, Ptr) and up.lv.cell == before.lv.cell)
        # whatever the default is when the scope is left
        vc.store[cell] = inner
        vc.invoke(D[0], [], this, "")
        now = vc.store[cell]
        vc.prove("post: leaving reinstates the resource that was the default on entry", isinstance(now, Ptr) and now.lv is not None and now.lv.cell == before.lv.cell)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates]
    vc.explore(body)


def spec_pa(vc, f):
    """polymorphic_allocator<T>::allocate(n) asks its resource for n*sizeof(T) bytes aligned for T"""
    st = {}
    T = vc.ty.T(vc.ty.strip(f["cls"]))["targs"][0]
    tt = vc.ty.T(T)
    size, align = {"double": (8, 8), "char": (1, 1)}.get(T, (48, 16))

    def h(vc, fr, obj, args, loc):
        st["req"] = [vc.to_int(vc.rv(a)) for a in args if isinstance(vc.rv(a), z3.ExprRef)][-2:]
        return Ptr(vc.new_lv(Opaque("block")))

    def body():
        vc.reset()
        st.clear()
        this = vc.new_lv(PyStruct({"m_resource": Ptr(vc.new_lv(Opaque("resource")))}), f["cls"])
        n = vc.symbolic("n", f["params"][0]["type"])
        vc.assume(n * size < (1 << 64))
        vc.invoke(f, [n], this, "")
        vc.prove("post: asks for n*sizeof(T) bytes aligned for T", z3.And(st["req"][0] == n * size, st["req"][1] >= align))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.contracts = [(lambda fr: fr["q"] == "TAT::pmr::memory_resource::allocate", h)]
    vc.explore(body)


SPECS = [("do_allocate aligned to %d" % a, MR + "::do_allocate", spec_allocate(a)) for a in (1, 2, 4, 8, 16)] + [
    ("constructor", MR + "::monotonic_buffer_resource", spec_ctor),
    ("release", MR + "::release", spec_release),
    ("destructor", MR + "::~monotonic_buffer_resource", spec_release),
    ("do_deallocate", MR + "::do_deallocate", spec_dealloc),
    ("scope_resource", "TAT::scope_resource::scope_resource", spec_scope),
    ("polymorphic_allocator::allocate", "TAT::pmr::polymorphic_allocator::allocate", spec_pa),
]


def select(ir, name, q):
    r = ir.find(q)
    if name == "constructor":
        r = [f for f in r if len(f["params"]) == 3]
    if name == "scope_resource":
        r = [f for f in r if len(f["params"]) == 0]
    return r
