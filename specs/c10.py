"""C10 interned names: the registry is a bijection between texts and ids, kept by every operation on names."""
import z3
from tatv.engine import *
from tatv.lib import *
from tatv import stdmodels as sm

TU = "name.cpp"
ROOTS = r"TAT::(FastName.*|operator(==|!=|<|>|<=|>=)|fast_name_dataset_t.*|check_valid_name|construct_name_to_index)"
MAXID = (1 << 31) - 2


def dataset(vc):
    for k, g in vc.ir.globals.items():
        if g.get("q", g.get("name", "")).split("::")[-1] == "fast_name_dataset":
            return k, g
    raise Unsupported("the name registry is not a global named fast_name_dataset")


class Reg:
    """the registry, found by the types of its members: one map text -> id, one sequence of texts, one counter"""

    def __init__(self, vc, tk, v):
        self.m = self.s = self.c = None
        for n, t in vc.ty.fields(tk):
            x = vc.rv(vc.get(v, ("f", n)))
            kd = vc.ty.kind(t)
            if kd == "map":
                self.m = x
            elif kd == "seq":
                self.s = x
            elif kd == "int":
                self.c = x
        if self.m is None or self.s is None:
            raise Unsupported("shape of the registry")


def pos_inv(R, pos):
    """the invariant with an explicit inverse: text i is registered at position pos(i) of the map"""
    i, p = z3.Ints("i p")
    n = ln(R.s)
    T = lambda i: z3.Select(arr(R.s), i)
    K = lambda p: z3.Select(acc(R.m, 0), p)
    V = lambda p: z3.Select(acc(R.m, 1), p)
    return [
        ("std::map holds each key once", sm.map_distinct(R.m)),
        ("ids fit", z3.And(n >= 1, n <= MAXID + 1)),
        ("counter", R.c == n if R.c is not None else z3.BoolVal(True)),
        ("every text is registered under its index", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(pos(i) >= 0, pos(i) < ln(R.m), K(pos(i)) == T(i), V(pos(i)) == i)), patterns=[T(i)])),
        ("every registered text is at its index", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(R.m)), z3.And(V(p) >= 0, V(p) < n, T(V(p)) == K(p), pos(V(p)) == p)), patterns=[K(p)])),
    ]


def setup(vc):
    vc.ty.atoms.add("std::basic_string")


def spec_ctor(vc, f):
    setup(vc)
    pos = z3.Function("pos", Int, Int)

    vc.merge_ifs = False

    def body():
        vc.reset()
        vc.last_insert = None
        vc.assumptions = ["fewer than 2^31-2 names exist", "the address of a name's text may change when names are created; only its contents are claimed"]
        key, g = dataset(vc)
        tk = g["type"]
        d = vc.symbolic("registry", tk)
        cell = vc.new_cell(d, tk)
        for kk in (key, int(key) if str(key).lstrip("-").isdigit() else key):
            vc.global_cells[kk] = cell
        R = Reg(vc, tk, d)
        for _, x in pos_inv(R, pos):
            vc.assume(x)
        vc.assume(ln(R.s) <= MAXID)
        e = vc.default(g["type"]) if False else None
        st = vc.symbolic("text", vc.ty.strip(f["params"][0]["type"]))
        this = vc.new_lv(PyStruct({n: None for n, _ in vc.ty.fields(f["cls"])}), f["cls"])
        vc.invoke(f, [vc.new_lv(st)], this, "")
        idn = [n for n, t in vc.ty.fields(f["cls"]) if vc.ty.kind(t) == "int"]
        if len(idn) != 1:
            raise Unsupported("a name is not one integer")
        idv = vc.rv(vc.get(vc.load(this), ("f", idn[0])))
        R2 = Reg(vc, tk, vc.store[cell])
        n, n2 = ln(R.s), ln(R2.s)
        i = z3.Int("i")
        vc.prove("post: the id is registered", z3.And(idv >= 0, idv < n2))
        vc.prove("post: the text of the new name is the given text", z3.Select(arr(R2.s), idv) == st)
        vc.prove("post: every earlier name keeps its text", z3.And(n2 >= n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr(R2.s), i) == z3.Select(arr(R.s), i)), patterns=[z3.Select(arr(R2.s), i)])))
        # the invariant again, with the inverse of the new state
        ins = getattr(vc, "last_insert", None)
        if vc.store[cell] is d or (isinstance(vc.store[cell], z3.ExprRef) and vc.store[cell].eq(d)):
            pos2 = pos
        else:
            if ins is None:
                raise Unsupported("registry changed without an insertion")
            pos2 = lambda i: z3.If(i == n, ins, z3.If(pos(i) < ins, pos(i), pos(i) + 1))
        for nm, x in pos_inv(R2, pos2)[1:]:
            vc.prove("post: registry: " + nm, x)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


def spec_init(vc, f):
    """the initial registry: the empty text has id 0"""
    setup(vc)

    def body():
        vc.reset()
        key, g = dataset(vc)
        if not g.get("init"):
            raise Unsupported("no initializer of the registry")
        d = vc.norm(vc.rv(vc.ev(g["init"])), g["type"])
        R = Reg(vc, g["type"], d)
        pos = lambda i: I(0)
        for nm, x in pos_inv(R, pos)[1:]:
            vc.prove("initially: registry: " + nm, x)
        vc.prove("initially: the default name is the empty text", z3.Select(arr(R.s), I(0)) == vc.default(next(t for n, t in vc.ty.fields(g["type"]) if vc.ty.kind(t) == "seq") and vc.ty.elem(next(t for n, t in vc.ty.fields(g["type"]) if vc.ty.kind(t) == "seq"))))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


def spec_text(vc, f):
    """reading the text of a registered name"""
    setup(vc)

    def body():
        vc.reset()
        key, g = dataset(vc)
        d = vc.symbolic("registry", g["type"])
        cell = vc.new_cell(d, g["type"])
        for kk in (key, int(key) if str(key).lstrip("-").isdigit() else key):
            vc.global_cells[kk] = cell
        R = Reg(vc, g["type"], d)
        x = vc.symbolic("name", f["cls"])
        idn = vc.ty.fields(f["cls"])[0][0]
        idv = vc.get(x, ("f", idn))
        vc.assume(z3.And(idv >= 0, idv < ln(R.s), ln(R.s) <= MAXID))
        r = vc.rv(vc.invoke(f, [], vc.new_lv(x, f["cls"]), ""))
        vc.prove("post: the text registered for the id", r == z3.Select(arr(R.s), idv))
        vc.prove("post: the registry is unchanged", vc.store[cell] == d)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


def spec_cstr(vc, f):
    """FastName(const char*) is FastName(std::string)"""
    setup(vc)
    st = {}

    def h(vc, fr, obj, args, loc):
        st["got"] = vc.rv(args[0])
        return Opaque("void")

    def body():
        vc.reset()
        st.clear()
        this = vc.new_lv(PyStruct({n: None for n, _ in vc.ty.fields(f["cls"])}), f["cls"])
        # the delegating initialiser must build the name from exactly this text
        ini = f.get("inits", [])
        if len(ini) != 1 or ini[0][0] != "delegating":
            raise Unsupported("not a delegating constructor")
        key, g = dataset(vc)
        d = vc.symbolic("registry", g["type"])
        cell = vc.new_cell(d, g["type"])
        for kk in (key, int(key) if str(key).lstrip("-").isdigit() else key):
            vc.global_cells[kk] = cell
        R = Reg(vc, g["type"], d)
        pos = z3.Function("pos", Int, Int)
        for _, x in pos_inv(R, pos):
            vc.assume(x)
        vc.assume(ln(R.s) <= MAXID)
        st_t = vc.ty.elem(next(t for n, t in vc.ty.fields(g["type"]) if vc.ty.kind(t) == "seq"))
        text = vc.symbolic("text", st_t)
        o = Opaque("cstr:")
        o.atom = text
        vc.invoke(f, [Ptr(vc.new_lv(o))], this, "")
        idv = vc.rv(vc.get(vc.load(this), ("f", vc.ty.fields(f["cls"])[0][0])))
        R2 = Reg(vc, g["type"], vc.store[cell])
        vc.prove("post: the text of the new name is the given text", z3.Select(arr(R2.s), idv) == text)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


def spec_lemma(vc, f):
    """two names are equal exactly when their texts are equal; comparisons are one total order that agrees with equality"""
    setup(vc)
    O = {}
    for g in vc.ir.funcs.values():
        if g["q"].startswith("TAT::operator") and len(g["params"]) == 2 and all(vc.ty.strip(p["type"]).replace("const ", "") in ("FastName", "TAT::FastName", "struct TAT::FastName") for p in g["params"]):
            O[g["q"][len("TAT::operator"):]] = g
    if set(O) != {"==", "!=", "<", ">", "<=", ">="}:
        raise Unsupported("comparisons of names: %s" % sorted(O))

    def body():
        vc.reset()
        key, g = dataset(vc)
        d = vc.symbolic("registry", g["type"])
        R = Reg(vc, g["type"], d)
        pos = z3.Function("pos", Int, Int)
        for _, x in pos_inv(R, pos):
            vc.assume(x)
        tk = vc.ty.strip(O["=="]["params"][0]["type"])
        a, b, c = [vc.symbolic(n, tk) for n in "abc"]
        idn = vc.ty.fields(tk)[0][0]
        i, j, k = [vc.get(x, ("f", idn)) for x in (a, b, c)]
        for x in (i, j, k):
            vc.assume(z3.And(x >= 0, x < ln(R.s)))
        T = lambda i: z3.Select(arr(R.s), i)
        B = lambda op, x, y: vc.tobool(vc.rv(vc.invoke(O[op], [vc.new_lv(x, tk), vc.new_lv(y, tk)], None, "")))
        eq = B("==", a, b)
        vc.prove("equal names have equal texts", z3.Implies(eq, T(i) == T(j)))
        vc.prove("names with equal texts are equal", z3.Implies(T(i) == T(j), eq))
        vc.prove("!= is the negation of ==", B("!=", a, b) == z3.Not(eq))
        lt, gt = B("<", a, b), B("<", b, a)
        vc.prove("exactly one of a<b, b<a, a==b", z3.And(z3.Or(lt, gt, eq), z3.Not(z3.And(lt, gt)), z3.Not(z3.And(lt, eq)), z3.Not(z3.And(gt, eq))))
        vc.prove("< is transitive", z3.Implies(z3.And(lt, B("<", b, c)), B("<", a, c)))
        vc.prove(">, <=, >= agree with <", z3.And(B(">", a, b) == gt, B("<=", a, b) == z3.Not(gt), B(">=", a, b) == z3.Not(lt)))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


SPECS = [
    ("registry initially", "TAT::FastName::FastName", spec_init),
    ("FastName(string)", "TAT::FastName::FastName", spec_ctor),
    ("FastName(const char*)", "TAT::FastName::FastName", spec_cstr),
    ("text of a name", "TAT::FastName::operator const std::string &", spec_text),
    ("comparisons", "TAT::FastName::FastName", spec_lemma),
]


def select(ir, name, q):
    fs = [f for f in ir.funcs.values() if f["q"].startswith("TAT::FastName::")]
    if name == "text of a name":
        return [f for f in fs if not f["params"] and "basic_string" in f["ret"]]
    c = [f for f in fs if f["q"].endswith("::FastName") and len(f["params"]) == 1]
    if name == "FastName(const char*)":
        return [f for f in c if "char *" in f["params"][0]["type"] and "string" not in f["params"][0]["type"]]
    c = [f for f in c if "string" in f["params"][0]["type"]]
    return c[:1]
