"""C15 element-wise arithmetic: every element is the operation applied to the operands' elements at the same multi-index"""
import z3
from tatv.engine import *
from tatv.lib import *
from tatv import stdmodels as sm
from specs.elem import *

OPS = {"+": "+", "-": "-", "*": "*", "/": "/"}


def opterm(vc, op, a, b, tk):
    return vc.fop(op, a, b, tk)


def scalar_key(vc, tk):
    f = dict(vc.ty.fields(core_type(vc, tk)))
    return vc.ty.elem(vc.ty.mapkv(f["blocks"])[1])


def track(vc, st, T, done, cell=None):
    """set the progress candidates up for the blocks of T (as on entry)"""
    B0 = T.blocks0(vc)
    st["cur"] = lambda vc: vc.get(T.now(vc)[1], ("f", "blocks"))
    st["n"], st["keys"] = ln(B0), acc(B0, 0)
    st["len"] = lambda p: ln(V(B0, p))
    st["key"] = lambda p: K(B0, p)
    st["old"] = lambda p, q: E(B0, p, q)
    st["done"] = done


def post_elements(vc, st, what):
    B = st["cur"](vc)
    p, q = z3.Ints("p q")
    vc.prove("post: the blocks and their sizes are unchanged", z3.And(ln(B) == st["n"], z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < st["n"]), z3.And(K(B, p) == st["key"](p), ln(V(B, p)) == st["len"](p))), patterns=[V(B, p)])))
    vc.prove("post: " + what, z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < st["n"], 0 <= q, q < st["len"](p)), E(B, p, q) == st["done"](p, q)), patterns=[E(B, p, q)]))


def in_place(mode):
    def spec(vc, f):
        tks = [vc.ty.strip(p["type"]) for p in f["params"]]
        op = f["q"][len("TAT::operator")]
        st = {}
        two = is_tensor(vc, tks[1])
        setup(vc, [t for t in tks if is_tensor(vc, t)])
        vc.contracts = [transpose_contract(st)]

        def body(alias):
            vc.reset()
            st.pop("transposed", None)
            T = Ten(vc, "tensor_1", tks[0])
            if two:
                if alias == "same object":
                    O = T
                else:
                    O = Ten(vc, "tensor_2", tks[1], share=T if alias == "shared data" else None)
                    if alias == "shared data":
                        vc.assume(T.uc >= 2)
                # what the second operand looks like in the order of legs of the first
                fi = z3.Function("fi", Int, Int)
                done = lambda p, q: opterm(vc, op, E(T.blocks0(vc), p, q), E(second(), fi(p), q), scalar_key(vc, tks[0]))

                def second():
                    return st["transposed"][-1][2].blocks0(vc) if st.get("transposed") else O.blocks0(vc)

                other = O.lv
            else:
                y = vc.symbolic("y", tks[1])
                other = vc.new_lv(y, tks[1])
                done = lambda p, q: opterm(vc, op, E(T.blocks0(vc), p, q), y, scalar_key(vc, tks[0]))
            track(vc, st, T, done)
            if two:
                e = lambda core: vc.get(core, ("f", "edges"))
                # the fact used for the blocks of the second operand: C03
                vc.assumptions = ["C03: tensors with equal edges have the same blocks of the same sizes", "C04: contract of transpose"]
                st["fact"] = lambda: same_shape_fact(vc, T.blocks0(vc), second(), fi, e(T.core0) == e(st["transposed"][-1][2].core0 if st.get("transposed") else O.core0))
                vc.assume(st["fact"]())
                st["after"] = lambda: vc.assume(st["fact"]())
            try:
                r = vc.invoke(f, [T.lv, other], None, "")
            except ThrowEx:
                if mode == "frame":
                    frame_in_place(vc, T, [O] if two and O is not T else [])
                return
            if mode == "frame":
                frame_in_place(vc, T, [O] if two and O is not T else [])
                vc.prove("post: the result is the tensor itself", z3.BoolVal(isinstance(r, LV) and r.cell == T.lv.cell and r.path == T.lv.path))
            else:
                post_elements(vc, st, "every element is the operation applied to the two elements at its multi-index")
                if two:
                    n1 = vc.get(T.obj0, ("f", "names"))
                    n2 = vc.get(O.obj0, ("f", "names"))
                    tr = st.get("transposed", [])
                    vc.prove("post: operands with different names are matched by name", z3.Or(n1 == n2, z3.BoolVal(bool(tr) and tr[-1][0] == O.lv.cell)))
                    if tr:
                        vc.prove("post: matched to the first operand's order", tr[-1][1] == n1)
                    e2 = tr[-1][2].core0 if tr else O.core0
                    vc.prove("post: operands of different edges are rejected", vc.get(T.core0, ("f", "edges")) == vc.get(e2, ("f", "edges")))
                    frame_const(vc, [O] if O is not T and alias == "" else [])
                nn = vc.load(T.lv)
                vc.prove("post: the order of legs is unchanged", vc.get(nn, ("f", "names")) == vc.get(T.obj0, ("f", "names")))
            vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

        # the blocks of a transposed operand are known only after the contract was used
        tc = vc.contracts[0]

        def h(vc, fr, obj, args, loc):
            r = tc[1](vc, fr, obj, args, loc)
            if "after" in st:
                st["after"]()
            return r

        vc.contracts = [(tc[0], h)]
        vc.cand_gens = [generic_candidates, progress(st)]
        for alias in ["", "shared data", "same object"] if two and tks[0] == tks[1] else [""]:
            vc.explore(lambda: body(alias))

    return spec


def with_scalar(vc, f):
    """tensor op scalar, scalar op tensor: a new tensor"""
    tks = [vc.ty.strip(p["type"]) for p in f["params"]]
    op = f["q"][len("TAT::operator")]
    st = {}
    first = is_tensor(vc, tks[0])
    rt = vc.ty.strip(f["ret"])
    setup(vc, [tks[0] if first else tks[1], rt])
    vc.ctor_contracts = [ctor_contract(st)]
    vc.assumptions = ["C03: a tensor made from another's edges has the same blocks of the same sizes"]

    def body():
        vc.reset()
        st.update(done=None, made=[])
        T = Ten(vc, "tensor", tks[0] if first else tks[1])
        y = vc.symbolic("y", tks[1] if first else tks[0])
        shape_of(vc, st, T)
        fi = st["fi"]
        sk = scalar_key(vc, rt)

        def done_of(BT):
            return lambda p, q: opterm(vc, op, E(BT, fi(p), q), y, sk) if first else opterm(vc, op, y, E(BT, fi(p), q), sk)

        st["done_of"] = done_of
        yl = vc.new_lv(y)
        try:
            r = vc.rv(vc.invoke(f, [T.lv, yl] if first else [yl, T.lv], None, ""))
        except ThrowEx:
            vc.prove("post: never an error", z3.BoolVal(False))
            return
        result_post(vc, st, T, r, "every element is the operation applied to the operand's element")
        frame_const(vc, [T])
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates, progress(st)]
    vc.explore(body)


def spec_map(vc, f):
    """map, same_shape: a new tensor of the same shape"""
    tk = vc.ty.strip(f["cls"])
    st = {}
    setup(vc, [tk, vc.ty.strip(f["ret"])])
    vc.ctor_contracts = [ctor_contract(st)]
    vc.assumptions = ["C03: a tensor made from another's edges has the same blocks of the same sizes"]

    def body():
        vc.reset()
        st.update(done=None, made=[])
        T = Ten(vc, "tensor", tk)
        shape_of(vc, st, T)
        fi = st["perm"] = st["fi"]
        sk = scalar_key(vc, tk)
        args = []
        if f["params"]:
            u = UFun("user_function", vc.ty.sort(sk))
            args = [vc.new_lv(u, vc.ty.strip(f["params"][0]["type"]))]
        st["done_of"] = lambda BT: (lambda p, q: u.call(vc, [E(BT, fi(p), q)]) if args else E(BT, fi(p), q))
        try:
            r = vc.rv(vc.invoke(f, args, T.lv, ""))
        except ThrowEx:
            vc.prove("post: never an error", z3.BoolVal(False))
            return
        result_post(vc, st, T, r, "every element is the function of the operand's element", bool(args))
        frame_const(vc, [T])
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates, progress(st)]
    vc.explore(body)


def spec_transform(vc, f):
    tk = vc.ty.strip(f["cls"])
    st = {}
    setup(vc, [tk])

    def body():
        vc.reset()
        T = Ten(vc, "self", tk)
        u = UFun("user_function", vc.ty.sort(scalar_key(vc, tk)))
        track(vc, st, T, lambda p, q: u.call(vc, [E(T.blocks0(vc), p, q)]))
        r = vc.invoke(f, [vc.new_lv(u, vc.ty.strip(p["type"])) for p in f["params"]], T.lv, "")
        post_elements(vc, st, "every element becomes the function of itself")
        nn = vc.load(T.lv)
        vc.prove("post: the order of legs is unchanged", vc.get(nn, ("f", "names")) == vc.get(T.obj0, ("f", "names")))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates, progress(st)]
    vc.explore(body)


def spec_copy(vc, f):
    """copy, to<same type>, to<other type>"""
    tk = vc.ty.strip(f["cls"])
    rt = vc.ty.strip(f["ret"])
    st = {}
    setup(vc, [tk, rt])

    def body():
        vc.reset()
        T = Ten(vc, "tensor", tk)
        st.clear()
        vc.map_order = True
        vc.last_shared = None
        B0 = T.blocks0(vc)
        vc.assume(sm.map_sorted(B0))
        s0, s1 = scalar_key(vc, tk), scalar_key(vc, rt)
        if s0 != s1:
            # the blocks are built one after the other, in the order of the operand's blocks
            conv = lambda x: sm.scalar_conv(vc, x, s0, s1)
            p, q = z3.Ints("p q")

            def cell():
                return vc.last_shared

            def gen(vc, sc):
                out = []
                if cell() is None:
                    return out
                cur = lambda vc: vc.get(vc.store[cell()], ("f", "blocks"))
                out.append(("edges unchanged", lambda vc: vc.get(vc.store[cell()], ("f", "edges")) == vc.get(T.core0, ("f", "edges"))))
                for n_, g_, m in sc.ptrs():
                    try:
                        P = g_(vc)
                    except Exception:
                        continue
                    if P.kind != "map" or P.idx is None:
                        continue
                    for d in (0, 1):
                        I_ = lambda vc, g_=g_, d=d: g_(vc).idx + d
                        out.append(("%d+%s blocks" % (d, n_), lambda vc, I_=I_: ln(cur(vc)) == I_(vc)))
                        out.append(("keys of %d+%s blocks" % (d, n_), lambda vc, I_=I_: z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < I_(vc)), z3.And(K(cur(vc), p) == K(B0, p), ln(V(cur(vc), p)) == ln(V(B0, p)))), patterns=[K(cur(vc), p), V(cur(vc), p)])))
                    out.append(("elements before %s" % n_, lambda vc, g_=g_: z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < g_(vc).idx, 0 <= q, q < ln(V(B0, p))), E(cur(vc), p, q) == conv(E(B0, p, q))), patterns=[E(cur(vc), p, q)])))
                    for jn, j, jm in sc.ints():
                        out.append(("elements of block %s before %s" % (n_, jn), lambda vc, g_=g_, j=j: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < j(vc)), E(cur(vc), g_(vc).idx, q) == conv(E(B0, g_(vc).idx, q))), patterns=[E(cur(vc), g_(vc).idx, q)])))
                return out

            st["gen"] = gen
        else:
            st["gen"] = lambda vc, sc: []
        try:
            r = vc.rv(vc.invoke(f, [], T.lv, ""))
        except ThrowEx:
            vc.prove("post: never an error", z3.BoolVal(False))
            return
        c2 = vc.get(r, ("f", "core")).lv.cell
        core = vc.store[c2]
        if f["q"].endswith("::copy"):
            vc.prove("post: the copy has data of its own", z3.BoolVal(c2 != T.cell))
        for fn in ("names", "name_to_index"):
            vc.prove("post: the %s are kept" % fn, vc.get(r, ("f", fn)) == vc.get(T.obj0, ("f", fn)))
        if s0 == s1:
            vc.prove("post: same content", core == T.core0)
        else:
            B = vc.get(core, ("f", "blocks"))
            vc.prove("post: the edges are kept", vc.get(core, ("f", "edges")) == vc.get(T.core0, ("f", "edges")))
            vc.prove("post: same blocks", z3.And(ln(B) == ln(B0), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(B0)), z3.And(K(B, p) == K(B0, p), ln(V(B, p)) == ln(V(B0, p)))), patterns=[K(B, p)])))
            vc.prove("post: every element is the converted element", z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < ln(B0), 0 <= q, q < ln(V(B0, p))), E(B, p, q) == conv(E(B0, p, q))), patterns=[E(B, p, q)]))
        frame_const(vc, [T])
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates, lambda vc, sc: st["gen"](vc, sc)]
    vc.explore(body)


def result_post(vc, st, T, r, what, elements=True):
    cell = vc.get(r, ("f", "core")).lv.cell
    vc.prove("post: the result has data of its own", z3.BoolVal(cell != T.cell))
    core = vc.store[cell]
    vc.prove("post: the names are kept", vc.get(r, ("f", "names")) == vc.get(T.obj0, ("f", "names")))
    e, te = vc.get(core, ("f", "edges")), vc.get(T.core0, ("f", "edges"))
    vc.prove("post: the edges are kept", e == te)
    B, BT = vc.get(core, ("f", "blocks")), T.blocks0(vc)
    p, q = z3.Ints("p q")
    gi = st["gi"]
    vc.prove("post: same blocks", z3.And(ln(B) == ln(BT), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(BT)), z3.And(0 <= gi(p), gi(p) < ln(B), K(B, gi(p)) == K(BT, p), ln(V(B, gi(p))) == ln(V(BT, p)))), patterns=[K(BT, p)])))
    if elements:
        vc.prove("post: " + what, z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < ln(BT), 0 <= q, q < ln(V(BT, p))), E(B, gi(p), q) == st["done"](gi(p), q)), patterns=[E(BT, p, q)]))


def sel(ir, q, pred):
    return [f for f in ir.funcs.values() if f["q"] == q and "scalar.hpp" in f["loc"] and pred(f)]


def tens(s):
    return "Tensor<" in s


SPECS = []
for o in "+-*/":
    SPECS.append(("tensor %s= tensor" % o, "TAT::operator%s=" % o, in_place("value")))
    SPECS.append(("tensor %s= scalar" % o, "TAT::operator%s=" % o, in_place("value")))
    SPECS.append(("tensor %s scalar" % o, "TAT::operator" + o, with_scalar))
    SPECS.append(("scalar %s tensor" % o, "TAT::operator" + o, with_scalar))
for n_, s_ in (("map", spec_map), ("same_shape", spec_map), ("transform", spec_transform), ("copy", spec_copy), ("to", spec_copy)):
    SPECS.append((n_, "TAT::Tensor::" + n_, s_))


def select(ir, name, q):
    if q.startswith("TAT::Tensor::"):
        return [f for f in ir.funcs.values() if f["q"] == q and not any("lambda" in p["type"] for p in f["params"])]
    if "=" not in name:
        return sel(ir, q, lambda f: len(f["params"]) == 2 and tens(f["params"][0]["type"]) == name.startswith("tensor") and tens(f["params"][1]["type"]) == name.endswith("tensor"))
    two = name.endswith("= tensor")
    return sel(ir, q, lambda f: len(f["params"]) == 2 and tens(f["params"][0]["type"]) and tens(f["params"][1]["type"]) == two)
