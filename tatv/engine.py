"""tatv: a contract verifier for the instantiated C++ of /repo.

Input : the JSON IR that tatv-extract dumps from clang's AST of /repo's current headers.
Method: symbolic execution of each function under contract.  Loops are cut by inductive invariants (candidate
        templates instantiated over the variables in scope, filtered to the inductive subset - Houdini), callees are
        replaced by their contract when they have one and are inlined otherwise.  Every assertion (postcondition,
        callee precondition, bounds, overflow, invariant) becomes an SMT obligation that is discharged for all inputs.
Integers are unbounded SMT integers with the exact C wrap-around/range semantics attached to every operation.
"""
import json, sys, time, re
import z3

sys.setrecursionlimit(20000)


_ForAll = z3.ForAll
_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_XOR, z3.Z3_OP_IMPLIES}


def _pat_ok(t):
    if z3.is_quantifier(t):
        return False
    if z3.is_app(t):
        if t.decl().kind() in _BADPAT:
            return False
        return all(_pat_ok(c) for c in t.children())
    return True


def safe_forall(vs, body, *a, patterns=(), **kw):
    """ForAll whose patterns are dropped when they are not admissible terms (e.g. contain an if-then-else)"""
    ps = []
    for p in patterns:
        if isinstance(p, z3.PatternRef):
            ps.append(p)
        elif _pat_ok(p):
            ps.append(p)
    try:
        return _ForAll(vs, body, *a, patterns=ps, **kw) if ps else _ForAll(vs, body, *a, **kw)
    except z3.Z3Exception:
        return _ForAll(vs, body, *a, **kw)


z3.ForAll = safe_forall


class Unsupported(Exception):
    pass


class NoMerge(Exception):
    pass


class PathEnd(Exception):
    """this path is finished / infeasible"""


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class ThrowEx(Exception):
    def __init__(self, what):
        self.what = what


class LV:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def f(self, name):
        return LV(self.cell, self.path + (("f", name),))

    def i(self, t):
        return LV(self.cell, self.path + (("i", t),))

    def __repr__(self):
        return "LV(%s,%s)" % (self.cell, self.path)


class Ptr:
    """pointer / iterator. idx None: points to the object at lv; otherwise element idx of the sequence (or map) at lv"""

    __slots__ = ("lv", "idx", "kind")

    def __init__(self, lv, idx=None, kind="seq"):
        self.lv = lv
        self.idx = idx
        self.kind = kind

    def __repr__(self):
        return "Ptr(%r,%s,%s)" % (self.lv, self.idx, self.kind)


class PyStruct:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "PyStruct(%r)" % self.f


class Closure:
    def __init__(self, ops, env, this, node):
        self.ops = ops
        self.env = env
        self.this = this
        self.node = node


class FnRef:
    def __init__(self, fr):
        self.fr = fr


class UFun:
    """a function the caller passes in: a function of the values of its arguments"""

    def __init__(self, name, ret):
        self.name, self.ret = name, ret

    def call(self, vc, args):
        vs = [vc.rv(a) for a in args]
        return uf(self.name, *[v.sort() for v in vs], self.ret)(*vs)


class Opaque:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


class Variant:
    """std::variant value: concrete alternative"""

    def __init__(self, alt, tkey, v):
        self.alt, self.tkey, self.v = alt, tkey, v


class Init:
    """braced list / initializer_list of values"""

    def __init__(self, tkey, vs):
        self.tkey = tkey
        self.vs = vs


I = z3.IntVal
MASK = "bvand"


def is_num(t):
    return z3.is_int_value(t)


def nv(t):
    return t.as_long()


def simp(t):
    return z3.simplify(t)


_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() if not isinstance(s, z3.DatatypeSortRef) else s.name() for s in sorts) + tuple(s.get_id() for s in sorts)
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


def has_quant(t, cache={}):
    i = t.get_id()
    r = cache.get(i)
    if r is not None and r[1] is t:
        return r[0]
    if z3.is_quantifier(t):
        x = True
    else:
        x = any(has_quant(c) for c in t.children())
    cache[i] = (x, t)
    return x


def symbols(t, acc, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                acc.add(x.decl().name())
            st.extend(x.children())


class IR:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.funcs = d["funcs"]
        self.globals = d["globals"]

    def find(self, q, pred=None):
        r = [f for f in self.funcs.values() if f["q"] == q and (pred is None or pred(f))]
        return r


SEQ = {"std::forward_list", "std::vector", "std::array", "std::initializer_list", "std::basic_string", "TAT::vector", "TAT::no_initialize_vector"}
MAPS = {"std::map", "std::set"}
ITERS = {"__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::reverse_iterator", "std::_Bit_iterator", "std::_Bit_const_iterator", "std::_Fwd_list_iterator", "std::_Fwd_list_const_iterator"}


class Types:
    def __init__(self, ir):
        self.ir = ir
        self.sorts = {}
        self.dts = {}
        self.raw_ptr_types = set()
        self.atoms = set()  # record names treated as atomic values of an uninterpreted sort (equality only)

    def T(self, k):
        return self.ir.types[k]

    def strip(self, k):
        t = self.T(k)
        while t["k"] == "ref":
            k = t["to"]
            t = self.T(k)
        if k.startswith("const ") and k[6:] in self.ir.types and t["k"] != "ptr":
            pass
        return k

    def atom_key(self, k):
        k = self.strip(k)
        return k[6:] if k.startswith("const ") else k

    def kind(self, k):
        t = self.T(self.strip(k))
        kk = t["k"]
        if kk == "rec":
            n = t["name"]
            if n in self.atoms or (self.atoms and self.atom_key(k) in self.atoms):
                return "atom"
            if n == "std::shared_ptr":
                return "sptr"
            if n in SEQ:
                return "seq"
            if n in MAPS:
                return "map"
            if n in ("std::pair", "std::tuple"):
                return "struct"
            if n == "std::complex":
                return "float"
            if n in ITERS:
                return "iter"
            if n == "std::_Bit_reference":
                return "bitref"
            if n in ("std::byte",):
                return "int"
            if t.get("repo") and "fields" in t:
                for b in t["bases"]:
                    if self.kind(b) in ("seq", "map", "sptr"):
                        return self.kind(b)
                return "struct"
            return "opaque"
        if kk in ("array", "iarray"):
            return "seq"
        return kk

    def elem(self, k):
        k = self.strip(k)
        t = self.T(k)
        if t["k"] in ("array", "iarray"):
            return t["of"]
        n = t["name"]
        if n in ("std::forward_list", "std::vector", "std::array", "std::initializer_list", "std::basic_string", "TAT::vector", "std::set"):
            return t["targs"][0]
        if n == "std::map":
            raise Unsupported("elem of map")
        for b in t.get("bases", []):
            if self.kind(b) == "seq":
                return self.elem(b)
        raise Unsupported("elem " + k)

    def pointee(self, k):
        """element type of a shared pointer"""
        t = self.T(self.strip(k))
        if t.get("name") == "std::shared_ptr":
            return t["targs"][0]
        for b in t.get("bases", []):
            if self.kind(b) == "sptr":
                return self.pointee(b)
        raise Unsupported("pointee " + k)

    def mapkv(self, k):
        k = self.strip(k)
        t = self.T(k)
        if t["name"] == "std::map":
            return t["targs"][0], t["targs"][1]
        if t["name"] == "std::set":
            return t["targs"][0], None
        for b in t.get("bases", []):
            if self.kind(b) == "map":
                return self.mapkv(b)
        raise Unsupported("map " + k)

    def fields(self, k):
        """[(name, typekey)] with bases flattened"""
        k = self.strip(k)
        t = self.T(k)
        if t.get("name") == "std::pair":
            return [("first", t["targs"][0]), ("second", t["targs"][1])]
        if t.get("name") == "std::tuple":
            a = t["targs"]
            if len(a) == 1 and isinstance(a[0], dict) and a[0].get("k") == "pack":
                a = a[0]["a"]
            return [(str(i), x) for i, x in enumerate(a)]
        r = []
        for b in t.get("bases", []):
            if self.kind(b) == "struct":
                r += self.fields(b)
        r += [(f[0], f[1]) for f in t["fields"]]
        return r

    def irange(self, k):
        t = self.T(self.strip(k))
        if t["k"] != "int":
            if t.get("name") == "std::byte":
                return 0, 255
            raise Unsupported("irange " + k)
        b = t["bits"]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else (0, (1 << b) - 1)

    def sort(self, k):
        k = self.strip(k)
        if k in self.sorts:
            return self.sorts[k]
        kd = self.kind(k)
        if kd == "int":
            s = z3.IntSort()
        elif kd == "bool":
            s = z3.BoolSort()
        elif kd == "float":
            s = z3.DeclareSort("F_" + re.sub(r"\W+", "_", k))
        elif kd == "atom":
            s = z3.DeclareSort("A_" + re.sub(r"\W+", "_", self.T(k)["name"] if self.T(k)["name"] in self.atoms else self.atom_key(k)))
        elif kd == "ptr" and k in self.raw_ptr_types:
            s = z3.IntSort()
        elif kd == "seq":
            es = self.sort(self.elem(k))
            s = self.seqsort(es)
        elif kd == "map":
            a, b = self.mapkv(k)
            s = self.mapsort(self.sort(a), self.sort(b) if b else z3.BoolSort())
        elif kd == "struct":
            fs = self.fields(k)
            ss = [self.sort(t) for _, t in fs]
            key = ("struct", k)
            d = z3.Datatype("S_" + re.sub(r"\W+", "_", k))
            d.declare("mk_" + re.sub(r"\W+", "_", k), *[("%s_%s" % (re.sub(r"\W+", "_", k), n), q) for (n, _), q in zip(fs, ss)])
            s = d.create()
            self.dts[s.name()] = [n for n, _ in fs]
        else:
            raise Unsupported("no sort for " + k + " kind " + kd)
        self.sorts[k] = s
        return s

    _seqs = {}

    def seqsort(self, es):
        key = es.name() + "#" + str(es.get_id())
        if key not in Types._seqs:
            nm = "Seq_" + es.name()
            d = z3.Datatype(nm)
            d.declare("mk" + nm, ("arr" + nm, z3.ArraySort(z3.IntSort(), es)), ("len" + nm, z3.IntSort()))
            Types._seqs[key] = (d.create(), es)
        return Types._seqs[key][0]

    _maps = {}

    def mapsort(self, ks, vs):
        key = (ks.get_id(), vs.get_id())
        if key not in Types._maps:
            nm = "Map_" + ks.name() + "_" + vs.name()
            d = z3.Datatype(nm)
            d.declare("mk" + nm, ("keys" + nm, z3.ArraySort(z3.IntSort(), ks)), ("vals" + nm, z3.ArraySort(z3.IntSort(), vs)), ("len" + nm, z3.IntSort()))
            Types._maps[key] = (d.create(), ks, vs)
        return Types._maps[key][0]

    def termable(self, k):
        try:
            self.sort(k)
            return True
        except Unsupported:
            return False


def acc(t, i):
    """i-th field of a single-constructor datatype term"""
    s = t.sort()
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return t.arg(i)
    return s.accessor(0, i)(t)


def arr(t):
    return acc(t, 0)


def ln(t):
    return acc(t, t.sort().constructor(0).arity() - 1)


def mkseq(sort, a, n):
    return sort.constructor(0)(a, n)


class Obl:
    __slots__ = ("name", "loc", "pc", "goal", "status", "time", "kind", "backend", "model", "fn")

    def __init__(self, name, loc, pc, goal, kind, fn):
        self.name, self.loc, self.pc, self.goal, self.kind, self.fn = name, loc, pc, goal, kind, fn
        self.status = None
        self.time = 0.0
        self.backend = None
        self.model = None


class VC:
    def __init__(self, ir, spec_name=""):
        self.ir = ir
        self.ty = Types(ir)
        self.spec_name = spec_name
        self.axioms = []  # (set of symbol names, formula, label)
        self.contracts = []  # (predicate(fr), handler)
        self.cand_gens = []
        self.models = {}
        self.obls = []
        self.obl_keys = {}
        self.record = True
        self.qcache = {}
        self.loopcache = {}
        self.keep = []
        self.nofork = 0
        self.wrap_policy = {}
        self.stats = {"queries": 0, "qtime": 0.0, "houdini_dropped": 0, "paths": 0, "loops": set(), "inlined": set(), "std": set()}
        self.solver_timeout = 8000
        self.cand_timeout = 3000
        self.max_inline = 60
        self.frame_fn = ["<spec>"]
        self.check_ub = True
        self.merge_ifs = True
        self.global_cells = {}
        self.loop_notes = {}
        self.loop_obl_done = set()
        self.loops_with_body = {}
        from . import stdmodels

        stdmodels.install(self)
        self.reset()

    # ---------------------------------------------------------------- state
    def reset(self):
        self.store = {}
        self.pc = []
        self.pcset = set()
        self.env = {}
        self.names = {}
        self.this = None
        self.counter = 0
        self.ncell = 0
        self.global_cells = {}
        self.frame_fn = ["<spec>"]
        self.depth = 0
        self.ghost = {}
        self.celltype = {}
        self.use_counts = {}
        self.callsites = []

    def snapshot(self):
        return (dict(self.store), list(self.pc), set(self.pcset), dict(self.env), dict(self.names), self.this, self.counter, self.ncell, dict(self.global_cells), list(self.frame_fn), self.depth, dict(self.ghost), dict(self.celltype), list(self.callsites))

    def restore(self, s):
        (store, pc, pcset, env, names, this, counter, ncell, gl, ff, depth, gh, ct, cs) = s
        self.store, self.pc, self.pcset, self.env, self.names = dict(store), list(pc), set(pcset), dict(env), dict(names)
        self.this, self.counter, self.ncell, self.global_cells, self.frame_fn, self.depth, self.ghost, self.celltype = this, counter, ncell, dict(gl), list(ff), depth, dict(gh), dict(ct)
        self.callsites = list(cs)

    def fresh(self, name, sort):
        self.counter += 1
        c = z3.Const("%s!%d" % (name, self.counter), sort)
        self.keep.append(c)
        return c

    def fresh_int(self, name, tkey=None):
        v = self.fresh(name, z3.IntSort())
        if tkey:
            lo, hi = self.ty.irange(tkey)
            self.assume(z3.And(v >= lo, v <= hi))
        return v

    def new_cell(self, v, tkey=None):
        self.ncell += 1
        self.store[self.ncell] = v
        if tkey:
            self.celltype[self.ncell] = tkey
        return self.ncell

    def new_lv(self, v, tkey=None):
        return LV(self.new_cell(v, tkey))

    def assume(self, f):
        if isinstance(f, bool):
            if f:
                return
            raise PathEnd()
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        i = f.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.keep.append(f)
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)

    def symbolic(self, name, tkey):
        """fresh symbolic value of a C++ type, with type invariants (ranges of scalars, non-negative lengths)"""
        kd = self.ty.kind(tkey)
        if kd == "int":
            return self.fresh_int(name, tkey)
        if kd == "sptr":
            pt = self.ty.pointee(tkey)
            return Ptr(self.new_lv(self.symbolic(name, pt), pt))
        if kd == "struct" and not self.ty.termable(tkey):
            return PyStruct({n: self.symbolic(name + "." + n, t) for n, t in self.ty.fields(tkey)})
        v = self.fresh(name, self.ty.sort(tkey))
        if kd in ("seq", "map"):
            self.assume(ln(v) >= 0)
            self.assume(ln(v) < (1 << 62))
            t = self.ty.T(self.ty.strip(tkey))
            if t["k"] == "array":
                self.assume(ln(v) == t["n"])
        return v

    # ---------------------------------------------------------------- solver
    def axioms_for(self, fs):
        names, seen = set(), set()
        for f in fs:
            symbols(f, names, seen)
        out, used = [], set()
        changed = True
        while changed:
            changed = False
            for n, (syms, ax, lab) in enumerate(self.axioms):
                if n in used:
                    continue
                if syms & names:
                    used.add(n)
                    out.append(ax)
                    symbols(ax, names, seen)
                    changed = True
        return out

    def add_axiom(self, ax, label, triggers=None):
        if triggers is None:
            acc_ = set()
            symbols(ax, acc_, set())
            triggers = acc_
        self.axioms.append((set(triggers), ax, label))

    def valid(self, goal, timeout=None, qf=False, pc=None, retry=False):
        """is pc ==> goal valid?  (True / False; False includes unknown)"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = simp(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            return True
        pc = self.pc if pc is None else pc
        if qf:
            pc = [p for p in pc if not has_quant(p)]
            if has_quant(goal):
                return False
        key = (tuple(p.get_id() for p in pc), g.get_id(), qf)
        r = self.qcache.get(key)
        if r is not None:
            return r
        self.keep.append(g)
        t0 = time.time()
        s = z3.SolverFor("QF_UFNIA") if False else z3.Solver()
        s.set("timeout", timeout or self.solver_timeout)
        if not qf:
            s.set("auto_config", False)
            s.set("mbqi", False)
        for p in pc:
            s.add(p)
        ng = z3.Not(g)
        s.add(ng)
        if not qf:
            for a in self.axioms_for(list(pc) + [ng]):
                s.add(a)
        r0 = s.check()
        if r0 == z3.unknown and not qf and retry and s.reason_unknown() in ("timeout", "canceled"):
            # out of time, not out of ideas: once more with another seed and arithmetic core
            s2 = z3.Solver()
            s2.set("timeout", 3 * (timeout or self.solver_timeout))
            s2.set("auto_config", False)
            s2.set("mbqi", False)
            s2.set("random_seed", 7)
            s2.set("arith.solver", 2)
            s2.add(*s.assertions())
            r0 = s2.check()
            self.stats["queries"] += 1
            self.stats["retries"] = self.stats.get("retries", 0) + 1
        r = r0 == z3.unsat
        self.stats["queries"] += 1
        self.stats["qtime"] += time.time() - t0
        self.qcache[key] = r
        return r

    def prove(self, name, goal, loc="", kind="assert"):
        """emit an obligation for the current path, then assume it"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.record:
            g = goal
            if not has_quant(g):
                g = simp(g)
            full = "%s%s" % (self.spec_name + ":" if self.spec_name else "", name)
            key = (full, tuple(p.get_id() for p in self.pc), g.get_id())
            if key not in self.obl_keys:
                self.keep.append(g)
                o = Obl(full, loc, list(self.pc), g, kind, self.frame_fn[-1])
                if z3.is_true(g):
                    o.status, o.backend = "proved", "simplifier"
                self.obl_keys[key] = o
                self.obls.append(o)
        self.assume(goal)

    def feasible(self, c):
        # quick, quantifier-free; unknown counts as feasible
        pc = [p for p in self.pc if not has_quant(p)]
        key = ("feas", tuple(p.get_id() for p in pc), c.get_id())
        r = self.qcache.get(key)
        if r is None:
            self.keep.append(c)
            s = z3.Solver()
            s.set("timeout", 400)
            s.add(*pc)
            s.add(c)
            t0 = time.time()
            r = s.check() != z3.unsat
            self.stats["queries"] += 1
            self.stats["qtime"] += time.time() - t0
            self.qcache[key] = r
        return r

    # ---------------------------------------------------------------- path exploration
    def choose(self, n):
        if self.nofork:
            raise NoMerge()
        if self.opos < len(self.odec):
            d = self.odec[self.opos]
        else:
            d = 0
            self.odec.append(0)
            for k in range(1, n):
                self.opending.append(list(self.odec[:-1]) + [k])
        self.opos += 1
        return d

    def branch(self, c):
        c = simp(c) if not has_quant(c) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # already decided in pc?
        self.keep.append(c)
        if c.get_id() in self.pcset:
            return True
        nc = z3.Not(c)
        if not self.feasible(c):
            self.assume(nc)
            return False
        if not self.feasible(nc):
            self.assume(c)
            return True
        if self.choose(2) == 0:
            self.assume(c)
            return True
        self.assume(nc)
        return False

    def explore(self, fn, snap=None, limit=4000):
        """run fn() on all paths; fn returns/raises; state is left as at the end of the last path"""
        saved = (getattr(self, "odec", None), getattr(self, "opos", None), getattr(self, "opending", None), self.nofork)
        self.nofork = 0
        pending = [[]]
        n = 0
        try:
            while pending:
                self.odec = pending.pop()
                self.opos = 0
                self.opending = []
                if snap is not None:
                    self.restore(snap)
                try:
                    fn()
                except PathEnd:
                    pass
                pending.extend(reversed(self.opending))
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
        finally:
            self.odec, self.opos, self.opending, self.nofork = saved
        self.stats["paths"] += n
        return n

    # ---------------------------------------------------------------- memory
    def get(self, v, step):
        k, a = step
        if k == "f":
            if isinstance(v, PyStruct):
                if a not in v.f:
                    raise Unsupported("no field %s" % a)
                return v.f[a]
            if isinstance(v, tuple):  # map entry
                return v[0] if a == "first" else v[1]
            if isinstance(v, Variant):
                raise Unsupported("field of variant")
            names = self.ty.dts.get(v.sort().name())
            if names is None:
                raise Unsupported("field %s of %s" % (a, v.sort()))
            return acc(v, names.index(a))
        if k == "i":
            if isinstance(v, PyList):
                return v.get(a)
            return z3.Select(arr(v), a)
        if k == "m":
            return (z3.Select(acc(v, 0), a), z3.Select(acc(v, 1), a))
        raise Unsupported("get")

    def load(self, lv):
        v = self.store[lv.cell]
        if v is None:
            raise Unsupported("read of uninitialised cell")
        for s in lv.path:
            v = self.get(v, s)
            if v is None:
                raise Unsupported("read of uninitialised field")
        return v

    def put(self, v, path, new):
        if not path:
            return new
        (k, a), rest = path[0], path[1:]
        if k == "f":
            if isinstance(v, PyStruct):
                d = dict(v.f)
                d[a] = self.put(v.f.get(a), rest, new)
                return PyStruct(d)
            if isinstance(v, tuple):
                if a == "second":
                    return (v[0], self.put(v[1], rest, new))
                raise Unsupported("write map key")
            names = self.ty.dts[v.sort().name()]
            i = names.index(a)
            n = v.sort().constructor(0).arity()
            args = [acc(v, j) for j in range(n)]
            x = self.put(args[i], rest, new)
            if not isinstance(x, z3.ExprRef):
                raise Unsupported("non-term stored in term struct")
            args[i] = x
            return v.sort().constructor(0)(*args)
        if k == "i":
            if isinstance(v, PyList):
                return v.put(a, self.put(v.get(a) if rest else None, rest, new))
            old = z3.Select(arr(v), a)
            x = self.put(old, rest, new)
            if not isinstance(x, z3.ExprRef):
                raise Unsupported("non-term stored in sequence: %r" % (x,))
            return mkseq(v.sort(), z3.Store(arr(v), a, x), ln(v))
        if k == "m":
            e = (z3.Select(acc(v, 0), a), z3.Select(acc(v, 1), a))
            e2 = self.put(e, rest, new)
            return v.sort().constructor(0)(acc(v, 0), z3.Store(acc(v, 1), a, e2[1]), acc(v, 2))
        raise Unsupported("put")

    def write(self, lv, val):
        if isinstance(val, LV):
            val = self.load(val)
        self.store[lv.cell] = self.put(self.store[lv.cell], lv.path, val)

    def rv(self, x):
        return self.load(x) if isinstance(x, LV) else x

    def as_lv(self, x, tkey=None):
        if isinstance(x, LV):
            return x
        return self.new_lv(x, tkey)

    def norm(self, v, tkey):
        """PyStruct of terms -> datatype term when the type is termable"""
        if isinstance(v, PyStruct) and self.ty.kind(tkey) == "struct" and self.ty.termable(tkey):
            fs = self.ty.fields(tkey)
            if any(self.ty.T(t)["k"] == "ref" for _, t in fs):
                return v
            args = []
            for n, t in fs:
                x = v.f.get(n)
                if x is None:
                    x = self.symbolic("undef_" + n, t)
                x = self.norm(x, t)
                if self.ty.kind(t) == "atom" and not isinstance(x, z3.ExprRef):
                    if isinstance(x, Ptr) and x.lv is not None:
                        x = self.load(x.lv)
                    if isinstance(x, Opaque) and x.what.startswith("str:"):
                        x = self.atom_literal(t, x.what[4:])
                if not isinstance(x, z3.ExprRef):
                    return v
                args.append(x)
            s = self.ty.sort(tkey)
            if not args:
                return s.constructor(0)()
            return s.constructor(0)(*args)
        return v

    def default(self, tkey, zero=True):
        kd = self.ty.kind(tkey)
        if kd == "int":
            return I(0) if zero else self.symbolic("undef", tkey)
        if kd == "bool":
            return z3.BoolVal(False) if zero else self.symbolic("undef", tkey)
        if kd == "float":
            return self.fconst(tkey, "0") if zero else self.symbolic("undef", tkey)
        if kd == "ptr":
            if self.ty.strip(tkey) in self.ty.raw_ptr_types:
                return I(0)
            return Ptr(None)
        if kd == "seq":
            t = self.ty.T(self.ty.strip(tkey))
            n = 0
            if t["k"] == "array":
                n = t["n"]
            elif t.get("name") == "std::array":
                n = int(t["targs"][1]["v"])
            if not self.ty.termable(tkey):
                et = self.ty.elem(tkey)
                return PyList([self.default(et) for _ in range(n)])
            s = self.ty.sort(tkey)
            es = self.ty.sort(self.ty.elem(tkey))
            if n == 0:
                return mkseq(s, self.fresh("emptyarr", z3.ArraySort(z3.IntSort(), es)), I(0))
            if zero:
                return mkseq(s, z3.K(z3.IntSort(), self.default(self.ty.elem(tkey))), I(n))
            return mkseq(s, self.fresh("undefarr", z3.ArraySort(z3.IntSort(), es)), I(n))
        if kd == "map":
            s = self.ty.sort(tkey)
            k, v = self.ty.mapkv(tkey)
            return s.constructor(0)(self.fresh("ek", z3.ArraySort(z3.IntSort(), self.ty.sort(k))), self.fresh("ev", z3.ArraySort(z3.IntSort(), self.ty.sort(v) if v else z3.BoolSort())), I(0))
        if kd == "struct":
            return self.norm(PyStruct({n: self.default(t, zero) for n, t in self.ty.fields(tkey)}), tkey)
        if kd in ("iter", "sptr"):
            return Ptr(None)
        if kd == "atom":
            return self.atom_literal(tkey, "")
        return Opaque(tkey)

    def atom_literal(self, tkey, text):
        """the atom denoted by a literal; different literals are different atoms"""
        so = self.ty.sort(tkey)
        num = uf("atom_number", so, z3.IntSort())
        code = int.from_bytes(b"\x01" + text.encode("latin-1", "replace"), "big")
        c = z3.Const("lit_%s_%x" % (so.name(), code), so)
        self.assume(num(c) == code)
        return c

    def fconst(self, tkey, s):
        so = self.ty.sort(tkey)
        return z3.Const("fc_%s_%s" % (so.name(), re.sub(r"\W", "_", s)), so)

    # ---------------------------------------------------------------- integers
    def inrange(self, t, lo, hi):
        if is_num(t):
            return lo <= nv(t) <= hi
        return self.valid(z3.And(t >= lo, t <= hi), timeout=300, qf=True)

    def wrap(self, t, tkey, loc=""):
        lo, hi = self.ty.irange(tkey)
        t = simp(t)
        if self.inrange(t, lo, hi):
            return t
        m = hi - lo + 1
        if is_num(t):
            return I((nv(t) - lo) % m + lo)
        if lo == 0:
            return t % m
        return (t - lo) % m + lo

    def arith(self, t, tkey, loc, what):
        """result of an arithmetic operation in type tkey"""
        if self.ty.kind(tkey) == "bool":
            return t != 0
        if self.ty.strip(tkey) in self.ty.raw_ptr_types:
            return simp(t)
        info = self.ty.T(self.ty.strip(tkey))
        lo, hi = self.ty.irange(tkey)
        t = simp(t)
        if info.get("signed"):
            if not self.inrange(t, lo, hi):
                if self.check_ub:
                    self.prove("signed-overflow(%s)@%s" % (what, self.short(loc)), z3.And(t >= lo, t <= hi), loc, "ub")
            return t
        return self.wrap(t, tkey, loc)

    def short(self, loc):
        return self.frame_fn[-1].split("#")[0].split("::")[-1]

    def to_int(self, v):
        if z3.is_bool(v):
            v = simp(v)
            if z3.is_true(v):
                return I(1)
            if z3.is_false(v):
                return I(0)
            return z3.If(v, I(1), I(0))
        return v

    def tdiv(self, a, b):
        if is_num(b) and nv(b) > 0:
            if self.valid(a >= 0, timeout=200, qf=True):
                return a / b
            return z3.If(a >= 0, a / b, -((-a) / b))
        if self.valid(z3.And(a >= 0, b > 0), timeout=200, qf=True):
            return a / b
        q = z3.If(b > 0, a / b, -(a / (-b)))
        q2 = z3.If(b > 0, -((-a) / b), (-a) / (-b))
        return z3.If(a >= 0, q, q2)

    def pow2(self, k):
        if is_num(k):
            return I(1 << nv(k))
        return uf("pow2", z3.IntSort(), z3.IntSort())(k)

    def binop(self, op, a, b, tkey, loc):
        """a, b python values (rvalues)"""
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(op, a, b, loc)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported("binop %s on %r %r" % (op, a, b))
        isf = not (z3.is_int(a) or z3.is_bool(a)) or not (z3.is_int(b) or z3.is_bool(b))
        if isf:
            return self.fop(op, a, b, tkey)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if z3.is_bool(a) and z3.is_bool(b) and op in ("==", "!="):
                return a == b if op == "==" else a != b
            a, b = self.to_int(a), self.to_int(b)
            r = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
            return simp(r)
        if op in ("^", "&", "|") and (z3.is_bool(a) or self.boolish(a)) and (z3.is_bool(b) or self.boolish(b)):
            x, y = self.tobool(a), self.tobool(b)
            r = {"^": z3.Xor(x, y), "&": z3.And(x, y), "|": z3.Or(x, y)}[op]
            return self.to_int(simp(r)) if self.ty.kind(tkey) != "bool" else simp(r)
        a, b = self.to_int(a), self.to_int(b)
        if op == "+":
            return self.arith(a + b, tkey, loc, "+")
        if op == "-":
            return self.arith(a - b, tkey, loc, "-")
        if op == "*":
            return self.arith(a * b, tkey, loc, "*")
        if op in ("/", "%"):
            if self.check_ub:
                self.prove("division-by-zero@%s" % self.short(loc), b != 0, loc, "ub")
            q = self.tdiv(a, b)
            if op == "/":
                return self.arith(q, tkey, loc, "/")
            return simp(a - b * q) if not (is_num(b) and nv(b) > 0 and self.valid(a >= 0, timeout=200, qf=True)) else a % b
        if op == "<<":
            return self.arith(a * self.pow2(b), tkey, loc, "<<")
        if op == ">>":
            if self.valid(a >= 0, timeout=200, qf=True) and is_num(b):
                return a / self.pow2(b)
            raise Unsupported(">>")
        if op in ("&", "|", "^"):
            if is_num(a) and is_num(b):
                x, y = nv(a), nv(b)
                return I({"&": x & y, "|": x | y, "^": x ^ y}[op])
            if op == "&" and is_num(b) and nv(b) >= 0 and (nv(b) & (nv(b) + 1)) == 0 and self.valid(a >= 0, timeout=200, qf=True):
                return a % (nv(b) + 1)
            if op == "&" and is_num(a):
                return self.binop(op, b, a, tkey, loc)
            if op == "&" and is_num(b):
                # mask that clears the k low bits of a value of this width
                lo, hi = self.ty.irange(tkey)
                low = hi + 1 - nv(b) if lo == 0 else 0
                if low > 0 and low & (low - 1) == 0 and self.valid(z3.And(a >= 0, a <= hi), timeout=200, qf=True):
                    return a - a % low
            r = uf("bit" + {"&": "and", "|": "or", "^": "xor"}[op], z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            lo, hi = self.ty.irange(tkey)
            self.assume(z3.And(r >= lo, r <= hi))
            return r
        raise Unsupported("binop " + op)

    def boolish(self, t):
        return z3.is_int(t) and ((is_num(t) and nv(t) in (0, 1)) or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and is_num(t.arg(1)) and is_num(t.arg(2)) and {nv(t.arg(1)), nv(t.arg(2))} <= {0, 1}))

    def tobool(self, v):
        if isinstance(v, Ptr):
            return z3.BoolVal(v.lv is not None)
        if z3.is_bool(v):
            return v
        if z3.is_int(v):
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and is_num(v.arg(1)) and is_num(v.arg(2)):
                x, y = nv(v.arg(1)) != 0, nv(v.arg(2)) != 0
                return v.arg(0) if x and not y else z3.Not(v.arg(0)) if y and not x else z3.BoolVal(x)
            return simp(v != 0)
        raise Unsupported("tobool")

    def fop(self, op, a, b, tkey):
        fs = [x.sort() for x in (a, b)]
        if op in ("==", "!="):
            if a.sort() == b.sort():
                r = uf("feq_" + a.sort().name(), a.sort(), a.sort(), z3.BoolSort())(a, b)
                return r if op == "==" else z3.Not(r)
        if op in ("<", ">", "<=", ">="):
            if op in (">", ">="):
                a, b = b, a
            return uf(("flt_" if op in "<>" else "fle_") + a.sort().name(), a.sort(), b.sort(), z3.BoolSort())(a, b)
        res = self.ty.sort(tkey)
        return uf("f%s_%s_%s" % ({"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], fs[0].name(), fs[1].name()), fs[0], fs[1], res)(a, b)

    def same_container(self, a, b):
        if a.lv is None or b.lv is None:
            return False
        if a.lv.cell != b.lv.cell or len(a.lv.path) != len(b.lv.path):
            return False
        for x, y in zip(a.lv.path, b.lv.path):
            if x[0] != y[0]:
                return False
            if x[0] == "f":
                if x[1] != y[1]:
                    return False
            elif not x[1].eq(y[1]):
                return False
        return True

    def ptrop(self, op, a, b, loc):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is None or b.lv is None:
                eq = a.lv is None and b.lv is None
                if op == "==":
                    return z3.BoolVal(eq)
                if op == "!=":
                    return z3.BoolVal(not eq)
                raise Unsupported("ptr cmp null")
            if not self.same_container(a, b):
                if op in ("==", "!=") and a.lv.cell != b.lv.cell:
                    return z3.BoolVal(op == "!=")
                raise Unsupported("pointer comparison across objects %r %r" % (a, b))
            x, y = a.idx, b.idx
            if x is None:
                x = y = I(0)
            if a.kind == "rev":
                x, y = y, x
            if op == "-":
                return simp(x - y)
            return simp({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if isinstance(a, Ptr):
            if a.idx is None:
                raise Unsupported("arith on object pointer")
            d = b if op == "+" else -b
            if a.kind == "rev":
                d = -d
            return Ptr(a.lv, simp(a.idx + d), a.kind)
        if op == "+":
            return self.ptrop("+", b, a, loc)
        raise Unsupported("ptrop")

    def deref(self, p, loc="", tkey=None):
        if isinstance(p, LV):
            p = self.load(p)
        if not isinstance(p, Ptr):
            raise Unsupported("deref of %r" % (p,))
        if p.lv is None:
            self.prove("null-dereference@%s" % self.short(loc), False, loc, "memory")
            raise PathEnd()
        if p.idx is None:
            return p.lv
        idx = p.idx if p.kind != "rev" else simp(p.idx - 1)
        c = self.load(p.lv)
        self.bounds(c, idx, loc)
        return LV(p.lv.cell, p.lv.path + (("m" if p.kind == "map" else "i", idx),))

    def seqlen(self, c):
        if isinstance(c, PyList):
            return I(len(c.v))
        return ln(c)

    def bounds(self, c, idx, loc):
        n = self.seqlen(c)
        if is_num(idx) and is_num(n) and 0 <= nv(idx) < nv(n):
            return
        self.prove("in-bounds@%s" % self.short(loc), z3.And(idx >= 0, idx < n), loc, "memory")

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None:
            raise Unsupported("null expr")
        m = getattr(self, "e_" + e[0], None)
        if m is None:
            raise Unsupported("expr %s" % (e[:3],))
        return m(e)

    def val(self, e):
        return self.rv(self.ev(e))

    def e_unsupported(self, e):
        raise Unsupported("construct %s at %s" % (e[1], e[2]))

    def e_int(self, e):
        if self.ty.kind(e[1]) == "bool":
            return z3.BoolVal(e[2] != "0")
        return I(int(e[2]))

    def e_flt(self, e):
        s = e[2]
        try:
            f = float(s)
            s = str(int(f)) if f == int(f) else repr(f)
        except Exception:
            pass
        return self.fconst(e[1], s)

    def e_str(self, e):
        return self.new_lv(Opaque("str:" + e[2]))

    def e_nullptr(self, e):
        return Ptr(None)

    def e_nop(self, e):
        return Opaque("void")

    def e_var(self, e):
        lv = self.env.get(e[2])
        if lv is None:
            raise Unsupported("unbound variable " + e[3])
        return lv

    e_bind = e_var

    def e_gvar(self, e):
        if e[2] in self.env:
            return self.env[e[2]]
        c = self.global_cells.get(e[2])
        if c is None:
            g = self.ir.globals.get(str(e[2]))
            tk = g["type"] if g else e[1]
            try:
                if g and g.get("const") and g.get("init"):
                    v = self.rv(self.ev(g["init"]))
                else:
                    v = self.symbolic("g_" + e[3].split("::")[-1], tk)
            except Unsupported:
                v = Opaque("global " + e[3])
            c = self.new_cell(v, tk)
            self.global_cells[e[2]] = c
        return LV(c)

    def e_fref(self, e):
        return FnRef(e[2])

    def e_this(self, e):
        if self.this is None:
            raise Unsupported("this")
        return Ptr(self.this)

    def e_mat(self, e):
        v = self.ev(e[2])
        if isinstance(v, LV):
            return v
        return self.new_lv(v, e[1])

    def e_mem(self, e):
        b = self.ev(e[3])
        if e[2]:
            b = self.rv(b)
            b = self.deref(b)
        b = self.as_lv(b)
        lv = b.f(e[4])
        # reference member: follow
        v = None
        try:
            v = self.load(lv)
        except Unsupported:
            pass
        if isinstance(v, LV):
            return v
        return lv

    def e_idx(self, e):
        b = self.rv(self.ev(e[2]))
        i = self.to_int(self.val(e[3]))
        if isinstance(b, Ptr):
            return self.deref(self.ptrop("+", b, i, e[4]), e[4])
        raise Unsupported("index on %r" % (b,))

    def e_un(self, e):
        op = e[2]
        if op == "&":
            lv = self.ev(e[3])
            if isinstance(lv, FnRef):
                return lv
            if not isinstance(lv, LV):
                raise Unsupported("& of rvalue")
            if lv.path and lv.path[-1][0] == "i":
                return Ptr(LV(lv.cell, lv.path[:-1]), lv.path[-1][1])
            return Ptr(lv)
        if op == "*":
            x = self.rv(self.ev(e[3]))
            if isinstance(x, (FnRef, Closure)):
                return x
            return self.deref(x, e[4])
        if op in ("++", "--", "post++", "post--"):
            lv = self.ev(e[3])
            old = self.load(lv)
            o = "+" if "++" in op else "-"
            if isinstance(old, Ptr):
                new = self.ptrop(o, old, I(1), e[4])
            elif z3.is_int(old):
                # integer promotion: result converts back (wraps) for narrow types; overflow check for int and wider signed
                t = simp(old + (1 if o == "+" else -1))
                info = self.ty.T(self.ty.strip(e[1]))
                if info["bits"] < 32:
                    new = self.wrap(t, e[1])
                else:
                    new = self.arith(t, e[1], e[4], op)
            else:
                raise Unsupported("incr")
            self.write(lv, new)
            return old if op.startswith("post") else lv
        v = self.val(e[3])
        if op == "!":
            return simp(z3.Not(self.tobool(v)))
        if op == "-":
            if z3.is_int(v):
                return self.arith(-v, e[1], e[4], "neg")
            return uf("fneg_" + v.sort().name(), v.sort(), v.sort())(v)
        if op == "+":
            return v
        if op == "~":
            v = self.to_int(v)
            lo, hi = self.ty.irange(e[1])
            return simp(hi - v) if lo == 0 else simp(-1 - v)
        raise Unsupported("unary " + op)

    def pure(self, fn):
        """evaluate fn in no-fork mode; returns (value, new_pc_facts); raises NoMerge if it forks, escapes or writes"""
        snap = self.snapshot()
        obl_n, keys = len(self.obls), None
        self.nofork += 1
        try:
            v = fn()
            extra = self.pc[len(snap[1]):]
            changed = [c for c in snap[0] if self.store[c] is not snap[0][c]]
            newst = self.store
        except (NoMerge, BreakEx, ContinueEx, ReturnEx, ThrowEx, PathEnd) as ex:
            self.drop_obls(obl_n)
            self.restore(snap)
            raise NoMerge()
        finally:
            self.nofork -= 1
        counter, ncell = self.counter, self.ncell
        gl = dict(self.global_cells)
        ct = self.celltype
        self.restore(snap)
        self.counter, self.ncell = counter, ncell
        self.global_cells = gl
        self.celltype = ct
        return v, extra, changed, newst

    def drop_obls(self, n):
        for o in self.obls[n:]:
            for k in [k for k, x in self.obl_keys.items() if x is o]:
                del self.obl_keys[k]
        del self.obls[n:]

    def under(self, c, fn):
        """pure evaluation of fn under assumption c"""

        def g():
            self.assume(c)
            return fn()

        n0 = len(self.pc)
        v, extra, changed, st = self.pure(g)
        extra = [x for x in extra if not x.eq(c)]
        if z3.is_and(c):
            ids = {y.get_id() for y in c.children()}
            extra = [x for x in extra if x.get_id() not in ids]
        return v, extra, changed, st

    def e_bin(self, e):
        op = e[2]
        if op == ",":
            self.ev(e[3])
            return self.ev(e[4])
        if op == "=":
            # C++17: right operand sequenced first
            r = self.val(e[4])
            l = self.ev(e[3])
            self.write(l, r)
            return l
        if op in ("&&", "||"):
            a = simp(self.tobool(self.val(e[3])))
            if z3.is_true(a) or z3.is_false(a):
                if z3.is_true(a) == (op == "&&"):
                    return self.tobool(self.val(e[4]))
                return a
            c = a if op == "&&" else z3.Not(a)
            obl_n = len(self.obls)
            try:
                if not self.feasible(c):
                    self.assume(simp(z3.Not(c)))
                    return z3.BoolVal(op == "||")
                v, extra, changed, st = self.under(c, lambda: self.tobool(self.val(e[4])))
                if changed:
                    self.drop_obls(obl_n)
                    raise NoMerge()
                for x in extra:
                    self.assume(z3.Implies(c, x))
                for cc in st:
                    if cc not in self.store:
                        self.store[cc] = st[cc]
                return simp(z3.And(a, v) if op == "&&" else z3.Or(a, v))
            except NoMerge:
                if self.branch(a):
                    return self.tobool(self.val(e[4])) if op == "&&" else z3.BoolVal(True)
                return z3.BoolVal(False) if op == "&&" else self.tobool(self.val(e[4]))
        a = self.val(e[3])
        b = self.val(e[4])
        return self.binop(op, a, b, e[1], e[5])

    def e_casgn(self, e):
        op = e[2]
        r = self.val(e[4])
        lv = self.ev(e[3])
        old = self.load(lv)
        if isinstance(old, Ptr):
            new = self.ptrop(op, old, self.to_int(r), e[7])
        elif z3.is_int(old) or z3.is_bool(old):
            if not isinstance(r, z3.ExprRef):
                raise Unsupported("casgn")
            x = self.binop(op, old, r, e[6], e[7])
            if self.ty.kind(e[1]) == "bool":
                new = self.tobool(x)
            else:
                new = self.wrap(self.to_int(x), e[1])
        else:
            new = self.binop(op, old, r, e[6], e[7])
        self.write(lv, new)
        return lv

    def e_cond(self, e):
        c = simp(self.tobool(self.val(e[2])))
        if z3.is_true(c):
            return self.ev(e[3])
        if z3.is_false(c):
            return self.ev(e[4])
        if self.ty.kind(e[1]) != "void":
            obl_n = len(self.obls)
            try:
                a, x1, ch1, s1 = self.under(c, lambda: self.ev(e[3]))
                b, x2, ch2, s2 = self.under(z3.Not(c), lambda: self.ev(e[4]))
                if ch1 or ch2 or isinstance(a, LV) or isinstance(b, LV):
                    self.drop_obls(obl_n)
                    raise NoMerge()
                m = self.merge_val(c, a, b)
                for x in x1:
                    self.assume(z3.Implies(c, x))
                for x in x2:
                    self.assume(z3.Implies(z3.Not(c), x))
                for st in (s1, s2):
                    for cc in st:
                        if cc not in self.store:
                            self.store[cc] = st[cc]
                return m
            except NoMerge:
                pass
        if self.branch(c):
            return self.ev(e[3])
        return self.ev(e[4])

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.kind == b.kind and self.same_container(a, b) and a.idx is not None:
            return Ptr(a.lv, simp(z3.If(c, a.idx, b.idx)), a.kind)
        if isinstance(a, PyStruct) and isinstance(b, PyStruct) and set(a.f) == set(b.f):
            return PyStruct({k: self.merge_val(c, a.f[k], b.f[k]) for k in a.f})
        if a is None and b is None:
            return None
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what:
            return a
        raise NoMerge()

    def e_cast(self, e):
        k, sub, st = e[2], e[3], e[4]
        if k == "LValueToRValue":
            lv = self.ev(sub)
            if isinstance(lv, (FnRef, Closure)):
                return lv
            v = self.rv(lv)
            if isinstance(v, z3.ExprRef) and z3.is_int(v) and not is_num(v):
                try:
                    lo, hi = self.ty.irange(e[1])
                    self.assume(z3.And(v >= lo, v <= hi))
                except Unsupported:
                    pass
            return v
        if k == "IntegralCast":
            v = self.to_int(self.val(sub))
            if self.ty.kind(e[1]) == "bool":
                return self.tobool(v)
            return self.wrap(v, e[1])
        if k in ("IntegralToBoolean", "PointerToBoolean"):
            v = self.val(sub)
            return simp(self.tobool(v))
        if k in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(sub)
        if k == "ArrayToPointerDecay":
            lv = self.ev(sub)
            if isinstance(lv, LV) and isinstance(self.load(lv), Opaque):
                return Ptr(lv)
            if isinstance(lv, Opaque):
                return Ptr(self.new_lv(lv))
            return Ptr(self.as_lv(lv), I(0))
        if k == "NullToPointer":
            self.ev(sub)
            return Ptr(None)
        if k == "ToVoid":
            self.ev(sub)
            return Opaque("void")
        if k == "BitCast":
            return self.val(sub)
        if k in ("PointerToIntegral", "IntegralToPointer"):
            v = self.val(sub)
            if isinstance(v, z3.ExprRef):
                return v
            raise Unsupported(k)
        if k in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral", "FloatingRealToComplex", "FloatingToBoolean"):
            v = self.val(sub)
            if k == "FloatingToBoolean":
                return z3.Not(uf("feq_" + v.sort().name(), v.sort(), v.sort(), z3.BoolSort())(v, self.fconst(st, "0")))
            if is_num(v) and k == "IntegralToFloating":
                return self.fconst(e[1], str(nv(v)))
            if k == "FloatingCast" and self.ty.sort(e[1]) == v.sort():
                return v
            r = uf("%s_%s_%s" % (k, v.sort().name(), self.ty.sort(e[1]).name()), v.sort(), self.ty.sort(e[1]))(v)
            if k == "FloatingToIntegral":
                lo, hi = self.ty.irange(e[1])
                self.assume(z3.And(r >= lo, r <= hi))
            return r
        raise Unsupported("cast " + k)

    def e_zero(self, e):
        return self.default(e[1])

    def e_init(self, e):
        vs = [self.ev(x) for x in e[2]]
        kd = self.ty.kind(e[1])
        if kd == "struct":
            fs = self.ty.fields(e[1])
            if len(vs) <= len(fs):
                d = {}
                # bases appear as nested values: only support plain aggregates
                for (n, t), v in zip(fs, vs):
                    d[n] = v if self.ty.T(t)["k"] == "ref" else self.rv(v)
                for n, t in fs[len(vs):]:
                    d[n] = self.default(t)
                return self.norm(PyStruct(d), e[1])
        if kd == "seq":
            vs = [self.rv(v) for v in vs]
            t = self.ty.T(self.ty.strip(e[1]))
            if t.get("name") == "std::array" and len(vs) == 1 and isinstance(vs[0], (z3.ExprRef, PyList)):
                s0 = vs[0]
                if isinstance(s0, PyList) or s0.sort() == self.ty.sort(e[1]):
                    return s0
            n = t["n"] if t["k"] == "array" else len(vs)
            return self.mkseq_vals(e[1], vs, n)
        if len(vs) == 1:
            return self.rv(vs[0])
        if not vs:
            return self.default(e[1])
        raise Unsupported("init list for " + e[1])

    def mkseq_vals(self, tkey, vs, n=None):
        n = len(vs) if n is None else n
        et = self.ty.elem(tkey)
        if not self.ty.termable(tkey):
            return PyList(list(vs) + [self.default(et) for _ in range(n - len(vs))])
        s = self.ty.sort(tkey)
        es = self.ty.sort(et)
        if n > len(vs):
            a = z3.K(z3.IntSort(), self.default(et))
        else:
            a = self.fresh("lit", z3.ArraySort(z3.IntSort(), es))
        for i, v in enumerate(vs):
            a = z3.Store(a, I(i), self.norm(v, et))
        return mkseq(s, a, I(n))

    def e_stdinit(self, e):
        v = self.rv(self.ev(e[2]))
        return v

    def e_lambda(self, e):
        env = {}
        this = None
        for c in e[3]:
            if c[0] == "this":
                this = self.this
                continue
            if c[3] is not None:
                v = self.ev(c[3])
                if c[0] == "ref":
                    env[c[1]] = self.as_lv(v)
                else:
                    env[c[1]] = self.new_lv(self.rv(v))
                continue
            lv = self.env.get(c[1])
            if lv is None:
                continue
            if c[0] == "ref":
                env[c[1]] = lv
            else:
                env[c[1]] = self.new_lv(self.load(lv))
        return Closure(e[4], env, this, e)

    def e_throw(self, e):
        raise ThrowEx(e[3])

    def e_delete(self, e):
        self.ev(e[2])
        return Opaque("void")

    def e_new(self, e):
        raise Unsupported("new")

    def e_ctor(self, e):
        fr, args, loc = e[2], e[3], e[4]
        tkey = e[1]
        kind = fr.get("ctor")
        if self.ty.kind(tkey) == "atom":
            vals = [self.ev(a) for a in args]
            if kind in ("copy", "move") and vals:
                return self.rv(vals[0])
            h = getattr(self, "atom_ctors", {}).get(self.ty.T(self.ty.strip(tkey)).get("name"))
            if h is not None:
                return h(self, tkey, fr, args, loc)
            from . import stdmodels

            return stdmodels.c_atom(self, tkey, vals)
        if kind in ("copy", "move") and len(args) >= 1:
            h = self.models.get("ctor:" + kind + ":" + fr["q"])
            if not fr.get("body") or fr.get("defaulted"):
                v = self.ev(args[0])
                v = self.rv(v)
                if kind == "move" and self.ty.kind(tkey) in ("seq", "map") and False:
                    pass
                return v
        if fr.get("body"):
            return self.construct(fr, args, tkey, loc)
        h = self.models.get("ctor:" + fr["q"])
        if h is not None:
            self.stats["std"].add("ctor:" + fr["q"])
            return h(self, tkey, fr, args, loc)
        if kind == "default" and not args:
            return self.default(tkey, zero=self.ty.kind(tkey) != "struct" or e[6])
        if len(args) == 1 and fr.get("inheriting"):
            return self.rv(self.ev(args[0]))
        raise Unsupported("ctor " + fr["q"] + " " + str(fr.get("ptypes")))

    def construct(self, fr, args, tkey, loc):
        f = self.ir.funcs[fr["fn"]]
        if self.is_opaque_class(fr["q"]):
            return Opaque(tkey)
        for pred, h in getattr(self, "ctor_contracts", []):
            if pred(fr):
                return h(self, fr, None, [self.ev(a) for a in args], loc)
        obj = self.new_cell(PyStruct({n: None for n, _ in self.ty.fields(tkey)}) if self.ty.kind(tkey) == "struct" else None, tkey)
        lv = LV(obj)
        if self.ty.kind(tkey) in ("seq", "map", "sptr"):
            self.store[obj] = self.default(tkey)
        avals = [self.ev(a) for a in args]
        self.invoke(f, avals, lv, loc)
        return self.norm(self.store[obj], tkey)

    def is_opaque_class(self, q):
        return any(q.startswith(p) for p in ("TAT::scope_resource", "TAT::timer"))

    def e_inhctor(self, e):
        raise Unsupported("inherited ctor")

    def e_icall(self, e):
        c = self.rv(self.ev(e[2]))
        args = [self.ev(a) for a in e[3]]
        if isinstance(c, FnRef):
            return self.call_fr(c.fr, None, args, e[4], e[1])
        if isinstance(c, Closure):
            return self.call_closure(c, args, e[4])
        if isinstance(c, Ptr) and c.lv is not None and isinstance(self.load(c.lv), UFun):
            c = self.load(c.lv)
        if isinstance(c, UFun):
            return c.call(self, args)
        raise Unsupported("indirect call %r" % (c,))

    def e_call(self, e):
        fr, objx, arrow, argx, loc = e[2], e[3], e[4], e[5], e[6]
        obj = None
        if objx is not None:
            obj = self.ev(objx)
            if arrow:
                obj = self.deref(self.rv(obj), loc) if not isinstance(self.rv(obj), (Opaque, z3.ExprRef)) else obj
        # lazily evaluated arguments are not needed in C++ calls
        q = fr["q"]
        if q in ("std::forward", "std::move", "std::as_const", "std::addressof") and argx:
            v = self.ev(argx[0])
            return v
        args = [self.ev(a) for a in argx]
        return self.call_fr(fr, obj, args, loc, e[1])

    def call_fr(self, fr, obj, args, loc, tkey=None):
        q = fr["q"]
        if fr["fn"].startswith("lambda#"):
            c = self.rv(obj)
            if not isinstance(c, Closure):
                raise Unsupported("lambda object")
            return self.call_closure(c, args, loc, fr)
        for pred, h in self.contracts:
            if pred(fr):
                return h(self, fr, obj, args, loc)
        h = self.models.get(q)
        if h is not None:
            self.stats["std"].add(q)
            return h(self, fr, obj, args, loc)
        if fr.get("assign") and obj is not None and fr.get("cls") and self.ty.kind(fr["cls"]) == "atom":
            self.write(obj, self.rv(args[0]))
            return obj
        if fr.get("body") and fr["fn"] in self.ir.funcs:
            f = self.ir.funcs[fr["fn"]]
            if f.get("defaulted") and f.get("assign"):
                self.write(obj, self.rv(args[0]))
                return obj
            return self.invoke(f, args, obj, loc)
        if fr.get("assign") and obj is not None:
            self.write(obj, self.rv(args[0]))
            return obj
        raise Unsupported("call to %s(%s) at %s" % (q, ",".join(fr.get("ptypes", [])), loc))

    def call_closure(self, c, args, loc, fr=None):
        if fr is None:
            ops = c.ops
            if len(ops) != 1:
                # choose by argument types
                raise Unsupported("overloaded lambda call")
            fr = ops[0]
        f = self.ir.funcs.get(fr["fn"])
        if f is None:
            raise Unsupported("lambda body " + fr["fn"])
        return self.invoke(f, args, None, loc, closure=c)

    def bind(self, pid, name, tkey, v):
        t = self.ty.T(tkey)
        self.names[pid] = (name, tkey)
        if t["k"] == "ref":
            self.env[pid] = self.as_lv(v, t["to"])
        else:
            v = self.rv(v)
            if isinstance(v, PyStruct):
                v = self.norm(v, tkey)
            self.env[pid] = self.new_lv(v, tkey)

    def invoke(self, f, args, this, loc, closure=None):
        self.depth += 1
        if self.depth > self.max_inline:
            raise Unsupported("inline depth in " + f["q"])
        saved = (self.env, self.names, self.this)
        self.stats["inlined"].add(f["fn"])
        self.frame_fn.append(f["fn"])
        self.env = dict(closure.env) if closure else {}
        self.names = dict(closure_names(closure, saved[1])) if closure else {}
        self.this = closure.this if closure else (this if this is None or isinstance(this, LV) else self.as_lv(this))
        try:
            for p, a in zip(f["params"], args):
                self.bind(p["id"], p["name"], p["type"], a)
            if len(args) < len(f["params"]):
                raise Unsupported("missing args " + f["q"])
            for ini in f.get("inits", []):
                if ini[0] == "member":
                    fld = dict(self.ty.fields(f["cls"]))
                    v = self.ev(ini[2])
                    if self.ty.T(fld[ini[1]])["k"] != "ref":
                        v = self.rv(v)
                    elif not isinstance(v, LV):
                        v = self.as_lv(v)
                    self.store[self.this.cell] = self.put(self.store[self.this.cell], self.this.path + (("f", ini[1]),), v)
                elif ini[0] == "base":
                    if self.ty.kind(ini[1]) == "struct" and not self.ty.fields(ini[1]):
                        continue
                    if self.ty.kind(ini[1]) in ("seq", "map", "sptr"):
                        v = self.rv(self.ev(ini[2]))
                        self.store[self.this.cell] = self.put(self.store[self.this.cell], self.this.path, v)
                        continue
                    v = self.rv(self.ev(ini[2]))
                    for n, t in self.ty.fields(ini[1]):
                        x = self.get(v, ("f", n))
                        self.store[self.this.cell] = self.put(self.store[self.this.cell], self.this.path + (("f", n),), x)
                elif ini[0] == "delegating":
                    v = self.rv(self.ev(ini[2]))
                    self.store[self.this.cell] = self.put(self.store[self.this.cell], self.this.path, v)
            try:
                self.st(f["code"])
                r = Opaque("void")
            except ReturnEx as ex:
                r = ex.v
            if self.ty.T(f["ret"])["k"] != "ref":
                r = self.rv(r)
                if isinstance(r, PyStruct):
                    r = self.norm(r, f["ret"])
            return r
        finally:
            self.depth -= 1
            self.frame_fn.pop()
            self.env, self.names, self.this = saved

    # ---------------------------------------------------------------- statements
    def st(self, s):
        if s is None:
            return
        m = getattr(self, "s_" + s[0], None)
        if m is None:
            raise Unsupported("stmt %s" % (s[:2],))
        m(s)

    def s_unsupported(self, s):
        raise Unsupported("stmt %s at %s" % (s[1], s[2]))

    def s_block(self, s):
        for x in s[1]:
            self.st(x)

    def s_expr(self, s):
        self.ev(s[1])

    def s_decl(self, s):
        for v in s[1]:
            self.declare(v)

    def declare(self, v):
        tk = v["type"]
        t = self.ty.T(tk)
        self.names[v["id"]] = (v["name"], tk)
        if v["init"] is None:
            self.env[v["id"]] = self.new_lv(self.default(tk, zero=False), tk)
        else:
            x = self.ev(v["init"])
            if t["k"] == "ref":
                self.env[v["id"]] = self.as_lv(x, t["to"])
            else:
                x = self.rv(x)
                if isinstance(x, PyStruct):
                    x = self.norm(x, tk)
                self.env[v["id"]] = self.new_lv(x, tk)
        for b in v.get("bindings", []):
            if b["hold"] is not None:
                self.declare(b["hold"])
                self.env[b["id"]] = self.env[b["hold"]["id"]]
                self.names[b["id"]] = (b["name"], b["hold"]["type"])
            else:
                lv = self.ev(b["expr"])
                self.env[b["id"]] = self.as_lv(lv)
                self.names[b["id"]] = (b["name"], b["expr"][1])

    def s_if(self, s):
        env0, names0 = self.env, self.names
        if s[1] is not None:
            self.st(s[1])
        if s[2] is not None:
            self.st(s[2])
        c = simp(self.tobool(self.val(s[3])))
        if z3.is_true(c):
            return self.st(s[4])
        if z3.is_false(c):
            return self.st(s[5])
        nc = z3.Not(c)
        if not self.feasible(c):
            self.assume(nc)
            return self.st(s[5])
        if not self.feasible(nc):
            self.assume(c)
            return self.st(s[4])
        # try to merge
        obl_n = len(self.obls)
        try:
            if not self.merge_ifs:
                raise NoMerge()
            base = self.store
            _, x1, ch1, s1 = self.under(c, lambda: self.st(s[4]))
            _, x2, ch2, s2 = self.under(nc, lambda: self.st(s[5]))
            merged = {}
            for cell in set(ch1) | set(ch2):
                merged[cell] = self.merge_val(c, s1[cell], s2[cell])
            for st in (s1, s2):
                for cc in st:
                    if cc not in self.store:
                        self.store[cc] = st[cc]
            for cell, v in merged.items():
                self.store[cell] = v
            for x in x1:
                self.assume(z3.Implies(c, x))
            for x in x2:
                self.assume(z3.Implies(nc, x))
            return
        except NoMerge:
            self.drop_obls(obl_n)
        if self.branch(c):
            self.st(s[4])
        else:
            self.st(s[5])

    def s_return(self, s):
        if s[1] is None:
            raise ReturnEx(Opaque("void"))
        raise ReturnEx(self.ev(s[1]))

    def s_break(self, s):
        raise BreakEx()

    def s_continue(self, s):
        raise ContinueEx()

    def s_try(self, s):
        raise Unsupported("try")

    def s_while(self, s):
        self.loop(s, lambda: self.tobool(self.val(s[1])), lambda: self.st(s[2]), None, s[3])

    def s_do(self, s):
        # do B while(c)  ==  B; while(c) B   (break in the first B handled)
        try:
            try:
                self.st(s[2])
            except ContinueEx:
                pass
        except BreakEx:
            return
        self.loop(s, lambda: self.tobool(self.val(s[1])), lambda: self.st(s[2]), None, s[3])

    def s_for(self, s):
        self.st(s[1])
        cond = (lambda: self.tobool(self.val(s[2]))) if s[2] is not None else (lambda: z3.BoolVal(True))
        self.loop(s, cond, lambda: self.st(s[4]), (lambda: self.ev(s[3])) if s[3] is not None else None, s[5])

    def s_forrange(self, s):
        self.st(s[1])
        self.st(s[2])
        self.st(s[3])

        def body():
            self.st(s[6])
            self.st(s[7])

        self.loop(s, lambda: self.tobool(self.val(s[4])), body, lambda: self.ev(s[5]), s[8])

    # ---------------------------------------------------------------- loops
    def one_iter(self, body, inc):
        """run body (+inc); BreakEx/ReturnEx/ThrowEx propagate"""
        try:
            body()
        except ContinueEx:
            pass
        if inc:
            inc()

    def quick_cond(self, cond):
        """concrete value of the condition if it is determined, without side effects kept"""
        snap = self.snapshot()
        n = len(self.obls)
        rec = self.record
        self.record = False
        self.nofork += 1
        try:
            c = simp(cond())
        except NoMerge:
            c = None
        finally:
            self.nofork -= 1
            self.record = rec
            self.restore(snap)
        return c

    unroll_limit = 600

    def loop(self, node, cond, body, inc, loc):
        n = 0
        env0, names0 = dict(self.env), dict(self.names)
        while True:
            c = self.quick_cond(cond)
            if c is not None and z3.is_false(c):
                cond()
                return
            if c is not None and z3.is_true(c) and n < self.unroll_limit and not self.no_unroll(node, c):
                cond()
                try:
                    self.one_iter(body, inc)
                except BreakEx:
                    return
                n += 1
                continue
            break
        if self.nofork:
            raise NoMerge()
        self.cut_loop(node, cond, body, inc, loc)

    def no_unroll(self, node, c):
        # `while(true)` is syntactically constant: cut it unless state is concrete (handled by spec hook)
        if node[0] == "while" and node[1][0] == "int":
            return not getattr(self, "concrete", False)
        if node[0] == "for" and node[2] is None:
            return not getattr(self, "concrete", False)
        return False

    def havoc(self, cells, tag):
        for c, path in sorted(cells):
            v = self.store[c]
            tk = self.celltype.get(c)
            if not path:
                self.store[c] = self.havoc_val(v, "%s_c%d" % (tag, c), tk)
                continue
            steps = tuple(("f", n) for n in path)
            for n in path:
                v = v.f[n]
                try:
                    tk = dict(self.ty.fields(tk))[n] if tk else None
                except (Unsupported, KeyError):
                    tk = None
            new = self.havoc_val(v, "%s_c%d.%s" % (tag, c, ".".join(path)), tk)
            self.store[c] = self.put(self.store[c], steps, new)

    def havoc_val(self, v, name, tkey=None):
        if isinstance(v, z3.ExprRef):
            n = self.fresh(name, v.sort())
            if tkey and self.ty.kind(tkey) == "int":
                lo, hi = self.ty.irange(tkey)
                self.assume(z3.And(n >= lo, n <= hi))
            if isinstance(v.sort(), z3.DatatypeSortRef) and (v.sort().name().startswith("Seq_") or v.sort().name().startswith("Map_")):
                self.assume(ln(n) >= 0)
                self.assume(ln(n) < (1 << 62))
            return n
        if isinstance(v, Ptr):
            if v.idx is None:
                raise Unsupported("object pointer modified in loop")
            return Ptr(v.lv, self.fresh(name + "_idx", z3.IntSort()), v.kind)
        if isinstance(v, PyStruct):
            return PyStruct({k: self.havoc_val(x, name + "." + k) for k, x in v.f.items()})
        if isinstance(v, PyList):
            return PyList([self.havoc_val(x, name + "[]") for x in v.v])
        if v is None:
            return None
        if isinstance(v, Opaque):
            return v
        raise Unsupported("havoc %r" % (v,))

    def diff_paths(self, a, b, path=()):
        """field paths at which two values of one cell differ"""
        if isinstance(a, PyStruct) and isinstance(b, PyStruct) and set(a.f) == set(b.f):
            r = set()
            for k in a.f:
                r |= self.diff_paths(a.f[k], b.f[k], path + (k,))
            return r
        return {path} if self.diff_val(a, b) else set()

    def diff_val(self, a, b):
        if a is b:
            return False
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return not a.eq(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if (a.lv is None) != (b.lv is None):
                raise Unsupported("pointer null-ness changes in loop")
            if a.lv is None:
                return False
            if not self.same_container(a, b) or a.kind != b.kind:
                raise Unsupported("pointer retargeted in loop")
            if a.idx is None:
                return False
            return not a.idx.eq(b.idx)
        if isinstance(a, PyStruct) and isinstance(b, PyStruct):
            return any(self.diff_val(a.f.get(k), b.f.get(k)) for k in set(a.f) | set(b.f))
        if isinstance(a, PyList) and isinstance(b, PyList):
            return len(a.v) != len(b.v) or any(self.diff_val(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return False
        if isinstance(a, Closure) or isinstance(b, Closure):
            return False
        return True

    def cut_loop(self, node, cond, body, inc, loc):
        fn = self.frame_fn[-1]
        tag = "L" + loc.split(":")[-1]
        self.stats["loops"].add((fn, loc))
        snap0 = self.snapshot()
        rec0 = self.record
        ckey = (id(node), tuple(self.frame_fn), tuple(self.odec[: self.opos]) if self.odec is not None else None, len(self.pc), tuple(p.get_id() for p in self.pc), tuple((c, v.get_id()) for c, v in sorted(self.store.items()) if isinstance(v, z3.ExprRef)))
        cached = self.loopcache.get(ckey)
        if cached is None:
            # ---- 1. which cells does the loop modify
            mod = set()
            self.record = False
            bodies = {"escape": False}
            while True:
                newmod = set(mod)

                def run():
                    self.havoc(mod, tag)
                    base = dict(self.store)
                    c = cond()
                    self.assume(simp(c))

                    def upd():
                        for cell in base:
                            for p in self.diff_paths(base[cell], self.store[cell]):
                                newmod.add((cell, p))
                        # a field path below one that is havocked anyway is dropped
                        for c_, p in list(newmod):
                            if any((c_, p[:k]) in newmod for k in range(len(p))):
                                newmod.discard((c_, p))

                    try:
                        self.one_iter(body, inc)
                        upd()
                    except BreakEx:
                        bodies["escape"] = True
                    except ReturnEx:
                        bodies["escape"] = True
                    except ThrowEx:
                        bodies["escape"] = True

                self.explore(run, snap0)
                if newmod == mod:
                    break
                mod = newmod
            self.restore(snap0)
            # ---- 2. candidates
            scope = Scope(self, mod, snap0, node)
            cands = []
            for g in self.cand_gens:
                cands += g(self, scope)
            live = []
            seen = set()
            for lab, fnc in cands:
                try:
                    f = fnc(self)
                except (Unsupported, KeyError, AttributeError, z3.Z3Exception, IndexError):
                    continue
                if f is None:
                    continue
                self.keep.append(f)
                if self.valid(f, timeout=self.cand_timeout, retry=True):
                    live.append((lab, fnc))
                else:
                    self.note(fn, loc, "init-fail: " + lab)
            # ---- 3. Houdini
            while True:
                failed = set()
                cnt = {"n": 0}

                def run2():
                    self.havoc(mod, tag)
                    for lab, fnc in live:
                        try:
                            self.assume(fnc(self))
                        except PathEnd:
                            raise
                    c = cond()
                    self.assume(simp(c))
                    try:
                        self.one_iter(body, inc)
                    except (BreakEx, ReturnEx, ThrowEx):
                        return
                    cnt["n"] += 1
                    for k, (lab, fnc) in enumerate(live):
                        if k in failed:
                            continue
                        try:
                            f = fnc(self)
                        except (Unsupported, KeyError, AttributeError, z3.Z3Exception, IndexError):
                            failed.add(k)
                            continue
                        if not self.valid(f, timeout=self.cand_timeout, retry=True):
                            failed.add(k)

                self.explore(run2, snap0)
                if not failed:
                    break
                for k in failed:
                    self.note(fn, loc, "not-inductive: " + live[k][0])
                self.stats["houdini_dropped"] += len(failed)
                live = [x for k, x in enumerate(live) if k not in failed]
            cached = (mod, live, bodies["escape"])
            self.loopcache[ckey] = cached
            self.keep.append(snap0)
            self.record = rec0
            self.restore(snap0)
            self.note(fn, loc, "invariant: " + " & ".join(l for l, _ in live))
# ---- 4. obligations of the loop itself (with the inductive set)
        mod, live, escape = cached
        if rec0 and ckey not in self.loop_obl_done:
            self.loop_obl_done.add(ckey)
            self.record = True
            self.restore(snap0)
            for lab, fnc in live:
                s1 = self.snapshot()
                self.prove("invariant-entry[%s]@%s" % (lab, self.short(loc)), fnc(self), loc, "invariant")
                self.restore(s1)

            def run3():
                self.havoc(mod, tag)
                for lab, fnc in live:
                    self.assume(fnc(self))
                c = cond()
                self.assume(simp(c))
                try:
                    self.one_iter(body, inc)
                except (BreakEx, ReturnEx, ThrowEx):
                    return
                for lab, fnc in live:
                    s1 = self.snapshot()
                    self.prove("invariant-preserved[%s]@%s" % (lab, self.short(loc)), fnc(self), loc, "invariant")
                    self.restore(s1)

            self.explore(run3, snap0)
        self.record = rec0
        self.restore(snap0)
        mod, live, escape = cached
        # ---- 5. continue after the loop
        self.havoc(mod, tag)
        for lab, fnc in live:
            self.assume(fnc(self))
        if escape:
            d = self.choose(2)
        else:
            d = 0
        if d == 0:
            c = cond()
            self.assume(simp(z3.Not(c)))
            return
        c = cond()
        self.assume(simp(c))
        rec = self.record
        self.record = False  # obligations of the body were emitted in step 4
        try:
            self.one_iter(body, inc)
        except BreakEx:
            self.record = rec
            return
        except (ReturnEx, ThrowEx):
            self.record = rec
            raise
        finally:
            self.record = rec
        raise PathEnd()

    def note(self, fn, loc, msg):
        self.loop_notes.setdefault((fn, loc), [])
        if msg not in self.loop_notes[(fn, loc)]:
            self.loop_notes[(fn, loc)].append(msg)


def closure_names(c, outer):
    return {k: outer[k] for k in c.env if k in outer}


class PyList:
    """sequence with python-level elements and concrete length (non-termable element types)"""

    def __init__(self, v):
        self.v = v

    def get(self, a):
        a = simp(a)
        if not is_num(a):
            raise Unsupported("symbolic index into python-level list")
        return self.v[nv(a)]

    def put(self, a, x):
        a = simp(a)
        if not is_num(a):
            raise Unsupported("symbolic index into python-level list")
        l = list(self.v)
        l[nv(a)] = x
        return PyList(l)


class Scope:
    """variables visible at a loop head, by type"""

    def __init__(self, vc, mod, snap, node):
        self.vc = vc
        self.mod = {c for c, _ in mod}
        self.entry = snap
        self.node = node
        self.fn = vc.frame_fn[-1].split("#")[0]
        self.vars = []
        for pid, lv in vc.env.items():
            nm, tk = vc.names.get(pid, ("?", None))
            self.vars.append((nm, tk, lv))

    def _each(self, pred):
        out = []
        for nm, tk, lv in self.vars:
            try:
                v = self.vc.load(lv)
            except Unsupported:
                continue
            if pred(v):
                out.append((nm, lv, lv.cell in self.mod))
        return out

    def ints(self):
        """[(name, getter, modified)]: ints and indices of pointers/iterators"""
        r = [(n, (lambda lv: lambda vc: vc.load(lv))(lv), m) for n, lv, m in self._each(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v))]
        r += [("idx(%s)" % n, (lambda lv: lambda vc: vc.load(lv).idx)(lv), m) for n, lv, m in self._each(lambda v: isinstance(v, Ptr) and v.lv is not None and v.idx is not None)]
        return r

    def signed(self):
        """(signed int variables, unsigned int variables and indices), by C type"""
        tk = {id(lv): t for _, t, lv in self.vars}
        a, b = [], []
        for n, lv, m in self._each(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v)):
            t = self.vc.ty.strip(tk[id(lv)]) if tk[id(lv)] else ""
            e = (n, (lambda lv: lambda vc: vc.load(lv))(lv), m)
            (b if "unsigned" in t or "char" in t else a).append(e)
        b += [x for x in self.ints() if x[0].startswith("idx(")]
        return a, b

    def bools(self):
        return [(n, (lambda lv: lambda vc: vc.load(lv))(lv), m) for n, lv, m in self._each(lambda v: isinstance(v, z3.ExprRef) and z3.is_bool(v))]

    def terms(self, sort):
        return [(n, (lambda lv: lambda vc: vc.load(lv))(lv), m) for n, lv, m in self._each(lambda v: isinstance(v, z3.ExprRef) and v.sort() == sort)]

    def seqs(self, es=None):
        def p(v):
            return isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.DatatypeSortRef) and v.sort().name().startswith("Seq_") and (es is None or arr(v).sort().range() == es)

        return [(n, (lambda lv: lambda vc: vc.load(lv))(lv), m) for n, lv, m in self._each(p)]

    def maps(self):
        def p(v):
            return isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.DatatypeSortRef) and v.sort().name().startswith("Map_")

        return [(n, (lambda lv: lambda vc: vc.load(lv))(lv), m) for n, lv, m in self._each(p)]

    def ptrs(self):
        return [(n, (lambda lv: lambda vc: vc.load(lv))(lv), m) for n, lv, m in self._each(lambda v: isinstance(v, Ptr) and v.lv is not None)]


def generic_candidates(vc, sc):
    """bounds of integer variables against lengths / other integers / constants"""
    out = []
    ints = sc.ints()
    lens = [("len(%s)" % n, (lambda g: lambda vc: ln(g(vc)))(g), m) for n, g, m in sc.seqs()]
    for n, g, m in sc.ptrs():
        p = g(vc)
        try:
            c = vc.load(p.lv)
            if isinstance(c, z3.ExprRef) and p.idx is not None:
                lens.append(("len(*%s)" % n, (lambda g: lambda vc: ln(vc.load(g(vc).lv)))(g), False))
        except Exception:
            pass
    # entry values
    for n, g, m in ints:
        if not m:
            continue
        try:
            v0 = g(vc)
        except Exception:
            continue
        out.append(("%s>=0" % n, lambda vc, g=g: g(vc) >= 0))
        out.append(("%s>=entry" % n, lambda vc, g=g, v0=v0: g(vc) >= v0))
        out.append(("%s<=entry" % n, lambda vc, g=g, v0=v0: g(vc) <= v0))
        for n2, g2, m2 in ints + lens:
            if n2 == n:
                continue
            out.append(("%s<=%s" % (n, n2), lambda vc, g=g, g2=g2: g(vc) <= g2(vc)))
            out.append(("%s<%s" % (n, n2), lambda vc, g=g, g2=g2: g(vc) < g2(vc)))
            if m2:
                out.append(("%s==%s" % (n, n2), lambda vc, g=g, g2=g2: g(vc) == g2(vc)))
                try:
                    d0 = simp(v0 - g2(vc))
                    s0 = simp(v0 + g2(vc))
                    out.append(("%s-%s const" % (n, n2), lambda vc, g=g, g2=g2, d0=d0: g(vc) - g2(vc) == d0))
                    out.append(("%s+%s const" % (n, n2), lambda vc, g=g, g2=g2, s0=s0: g(vc) + g2(vc) == s0))
                except Exception:
                    pass
    # lengths of modified sequences unchanged / related
    for n, g, m in sc.seqs():
        if m:
            l0 = ln(g(vc))
            out.append(("len(%s) const" % n, lambda vc, g=g, l0=l0: ln(g(vc)) == l0))
            for n2, g2, m2 in ints:
                if m2:
                    out.append(("len(%s)==%s" % (n, n2), lambda vc, g=g, g2=g2: ln(g(vc)) == g2(vc)))
    return out
