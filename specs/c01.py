"""C01 quantum numbers: every operator of every symmetry type, for all values (components bounded so that sums fit)."""
import z3
from tatv.engine import *
from tatv.lib import *

TU = "sym.cpp"
ROOTS = r"TAT::operator(\+|\+=|-|==|!=|<|>|<=|>=)"
SYMS = ["NoSymmetry", "Z2Symmetry", "U1Symmetry", "FermiSymmetry", "FermiZ2Symmetry", "FermiU1Symmetry"]
LIM = {"fermi": (1 << 13) - 1, "u1": (1 << 29) - 1}


def is_sym(f, s, n):
    ps = f["params"]
    return len(ps) == n and all(("TAT::" + s) in p["type"].replace("const ", "") or p["type"].replace("const ", "").startswith(s) for p in ps)


def ops(ir, s):
    d = {}
    for f in ir.funcs.values():
        m = f["q"]
        if not m.startswith("TAT::operator"):
            continue
        op = m[len("TAT::operator"):]
        tk = [p["type"] for p in f["params"]]
        base = [t.replace("const ", "").replace("&", "").replace("TAT::", "").replace("struct ", "").strip() for t in tk]
        if not base or any(b != s for b in base):
            continue
        d[(op, len(base))] = f
    return d


def mk(s):
    def spec(vc, f):
        O = ops(vc.ir, s)
        tk = vc.ty.strip(f["params"][0]["type"])
        fields = [n for n, _ in vc.ty.fields(tk)]

        def comp(v):
            return [vc.to_int(vc.rv(vc.get(v, ("f", n)))) if not z3.is_bool(vc.rv(vc.get(v, ("f", n)))) else vc.rv(vc.get(v, ("f", n))) for n in fields]

        def sym(name, half=1):
            v = vc.symbolic(name, tk)
            for n, c in zip(fields, comp(v)):
                if n in LIM:
                    vc.assume(z3.And(c >= -LIM[n], c <= LIM[n]))
                elif n != "z2":
                    raise Unsupported("unknown component " + n)
            return v

        def plus(a, b):
            return [z3.Xor(x, y) if n == "z2" else x + y for n, x, y in zip(fields, comp(a), comp(b))]

        def minus(a):
            return [x if n == "z2" else -x for n, x in zip(fields, comp(a))]

        def eqc(x, y):
            return z3.And(*[p == q for p, q in zip(x, y)]) if x else z3.BoolVal(True)

        def call(op, *vs):
            g = O.get((op, len(vs)))
            if g is None:
                raise Unsupported("operator%s of %s not found" % (op, s))
            return vc.invoke(g, [vc.new_lv(v, tk) for v in vs], None, "")

        def val(r):
            return vc.rv(r)

        def body():
            vc.reset()
            vc.assumptions = ["components of the quantum numbers are bounded by %s so that sums of two fit their C type (no wrap-around claimed)" % LIM]
            a, b, c = sym("a"), sym("b"), sym("c")
            vc.prove("a+b is the componentwise sum", eqc(comp(val(call("+", a, b))), plus(a, b)))
            vc.prove("-a is the componentwise negation", eqc(comp(val(call("-", a))), minus(a)))
            # compound assignment: result and effect
            g = O.get(("+=", 2))
            if g is None:
                raise Unsupported("operator+= not found")
            la, lb = vc.new_lv(a, tk), vc.new_lv(b, tk)
            r = vc.invoke(g, [la, lb], None, "")
            vc.prove("a+=b stores the sum", eqc(comp(vc.load(la)), plus(a, b)))
            vc.prove("a+=b returns the sum", eqc(comp(val(r)), plus(a, b)))
            vc.prove("a+=b leaves b", eqc(comp(vc.load(lb)), comp(b)))
            la = vc.new_lv(a, tk)
            vc.invoke(g, [la, la], None, "")
            vc.prove("a+=a stores the sum", eqc(comp(vc.load(la)), plus(a, a)))
            # one strict total order, all six comparisons agree with it
            B = lambda op, x, y: vc.tobool(val(call(op, x, y)))
            same = eqc(comp(a), comp(b))
            lt, gt = B("<", a, b), B("<", b, a)
            vc.prove("a==b iff components equal", B("==", a, b) == same)
            vc.prove("a!=b iff components differ", B("!=", a, b) == z3.Not(same))
            vc.prove("exactly one of a<b, b<a, a=b", z3.And(z3.Or(lt, gt, same), z3.Not(z3.And(lt, gt)), z3.Not(z3.And(lt, same)), z3.Not(z3.And(gt, same))))
            vc.prove("< is transitive", z3.Implies(z3.And(lt, B("<", b, c)), B("<", a, c)))
            vc.prove("a>b iff b<a", B(">", a, b) == gt)
            vc.prove("a<=b iff not b<a", B("<=", a, b) == z3.Not(gt))
            vc.prove("a>=b iff not a<b", B(">=", a, b) == z3.Not(lt))
            vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

        vc.explore(body)

    return spec


SPECS = [("symmetry operators of " + s, "TAT::operator+", mk(s)) for s in SYMS]


def select(ir, name, q):
    s = name.split()[-1]
    o = ops(ir, s)
    return [o[("+", 2)]] if ("+", 2) in o else []
