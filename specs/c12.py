"""C12 values: an operation that returns a new tensor changes no operand; an in-place change never reaches a tensor that shares
the data"""
import z3
from tatv.engine import *
from tatv.lib import *
from specs.elem import *
from specs import c15

TU = "elem.cpp"
ROOTS = c15.ROOTS


def item_contract(st):
    """get_*_for_get_item by contract (C07): an error, or the key of a block and a position inside that block"""

    def h(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        if vc.choose(2) == 1:
            raise ThrowEx("no such element")
        q = fr["q"]
        f = vc.ir.funcs.get(fr.get("key")) if fr.get("key") else None
        rt = vc.ty.strip(fr.get("ret") or f["ret"])
        v = vc.symbolic("item", rt)
        st["item"] = v
        T = st["T"]
        B = T.blocks0(vc)
        p = z3.Int("p")
        if q.endswith("get_offset_for_get_item"):
            vc.assume(z3.And(ln(B) == 1, v >= 0, v < ln(V(B, I(0)))))
        elif q.endswith("get_block_and_offset_for_get_item"):
            fs = vc.ty.fields(rt)
            key, off = vc.get(v, ("f", fs[0][0])), vc.get(v, ("f", fs[1][0]))
            vc.assume(z3.And(off >= 0, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(B), K(B, p) == key), off < ln(V(B, p))), patterns=[K(B, p)])))
        return v

    return (lambda fr: fr["q"].endswith("_for_get_item"), h)


def in_tensor(vc, T, r):
    """the reference returned lies in the tensor's own data"""
    cell, core = T.now(vc)
    return isinstance(r, LV) and r.cell == cell


def spec_access(vc, f):
    tk = vc.ty.strip(f["cls"])
    st = {}
    setup(vc, [tk])
    vc.contracts = [item_contract(st)]
    const = "const" in f["q"].split("::")[-1] or f.get("const")

    def body():
        vc.reset()
        T = Ten(vc, "self", tk)
        st["T"] = T
        if "Symmetry" not in tk or "NoSymmetry" in tk:
            vc.assume(ln(T.blocks0(vc)) == 1)
        pos = vc.new_lv(Opaque("position"), vc.ty.strip(f["params"][0]["type"]))
        try:
            r = vc.invoke(f, [pos], T.lv, "")
        except ThrowEx:
            if const:
                frame_const(vc, [T])
            else:
                frame_in_place(vc, T)
            return
        if not isinstance(r, LV):
            raise Unsupported("result is not a reference")
        vc.prove("post: the reference lies in the tensor's own data", z3.BoolVal(in_tensor(vc, T, r)))
        if const:
            frame_const(vc, [T])
        else:
            cell, core = T.now(vc)
            # writing through the reference reaches nobody else
            vc.prove("post: the data a reference for writing points to is not shared", T.uc == 1 if cell == T.cell else z3.BoolVal(True))
            vc.prove("post: shared data is never written", vc.store[T.cell] == T.core0)
            vc.prove("post: a private copy has the same content", core == T.core0)
        nn = vc.load(T.lv)
        vc.prove("post: the order of legs is unchanged", vc.get(nn, ("f", "names")) == vc.get(T.obj0, ("f", "names")))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates]
    vc.explore(body)


def spec_change(vc, f):
    """transform, set, zero"""
    tk = vc.ty.strip(f["cls"])
    st = {}
    setup(vc, [tk])

    def body():
        vc.reset()
        T = Ten(vc, "self", tk)
        args = []
        for p in f["params"]:
            sk = c15.scalar_key(vc, tk)
            args.append(vc.new_lv(UFun("user_function", vc.ty.sort(sk)), vc.ty.strip(p["type"])))
        c15.track(vc, st, T, lambda p, q: E(T.blocks0(vc), p, q))
        r = vc.invoke(f, args, T.lv, "")
        frame_in_place(vc, T)
        vc.prove("post: the result is the tensor itself", z3.BoolVal(isinstance(r, LV) and r.cell == T.lv.cell and r.path == T.lv.path))
        nn = vc.load(T.lv)
        vc.prove("post: the order of legs is unchanged", vc.get(nn, ("f", "names")) == vc.get(T.obj0, ("f", "names")))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.cand_gens = [generic_candidates, progress(st)]
    vc.explore(body)


SPECS = []
for o in "+-*/":
    SPECS.append(("tensor %s= tensor" % o, "TAT::operator%s=" % o, c15.in_place("frame")))
    SPECS.append(("tensor %s= scalar" % o, "TAT::operator%s=" % o, c15.in_place("frame")))
for n in ("at", "const_at", "block", "const_block"):
    SPECS.append((n, "TAT::Tensor::" + n, spec_access))
for n in ("transform", "set", "zero"):
    SPECS.append((n, "TAT::Tensor::" + n, spec_change))


def select(ir, name, q):
    if name.startswith("tensor "):
        return c15.select(ir, name, q)
    return [f for f in ir.funcs.values() if f["q"] == q and not any("lambda" in p["type"] for p in f["params"])]
