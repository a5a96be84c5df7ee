"""C14 collectives: the send/receive traces of all ranks match pairwise along a tree, for every size, root and rank."""
import z3
from tatv.engine import *
from tatv.lib import *

TU = "mpi.cpp"
ROOTS = r"TAT::mpi_t::(send|receive|send_receive|broadcast|reduce)"
FLAGS = ["-DTAT_USE_MPI", "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
LIM = 1 << 29


class Rank:
    """one process: runs the collective and records what it sends and receives"""

    def __init__(self, vc, f, size, rank, args, name):
        self.vc, self.size, self.rank, self.name = vc, size, rank, name
        tk = f["cls"]
        d = {}
        for n, t in vc.ty.fields(tk):
            d[n] = {"size": size, "rank": rank}.get(n)
            if d[n] is None:
                raise Unsupported("unknown state of a process: " + n)
        this = vc.new_lv(PyStruct(d), tk)
        vc.cur = self
        self.ev = []
        self.result = vc.rv(vc.invoke(f, args, this, ""))

    def sends(self):
        return [e for e in self.ev if e[0] == "send"]

    def recvs(self):
        return [e for e in self.ev if e[0] == "recv"]


def install(vc):
    vc.ty.atoms.add("TAT::Tensor")

    vc.merge_ifs = False

    def h_send(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        v, d = vc.rv(args[0]), vc.to_int(vc.rv(args[1]))
        vc.cur.ev.append(("send", d, v))
        return Opaque("void")

    def h_recv(vc, fr, obj, args, loc):
        if vc.nofork:
            raise NoMerge()
        s = vc.to_int(vc.rv(args[0]))
        v = vc.fresh("message", vc.tsort)
        vc.cur.ev.append(("recv", s, v))
        return v

    def h_op(vc, fr, obj, args, loc):
        return vc.opf(vc.rv(args[0]), vc.rv(args[1]))

    vc.contracts = [
        (lambda fr: fr["q"] == "TAT::mpi_t::send", h_send),
        (lambda fr: fr["q"] == "TAT::mpi_t::receive", h_recv),
        (lambda fr: fr["q"] == "Op::operator()", h_op),
        (lambda fr: "_guard" in fr["q"] or fr["q"].startswith("TAT::timer"), lambda vc, fr, obj, args, loc: Opaque("timer")),
    ]


def count(evs, p):
    return z3.Sum([z3.If(e[1] == p, I(1), I(0)) for e in evs]) if evs else I(0)


def start(vc, f):
    tk = vc.ty.strip(f["params"][0]["type"])
    vc.tsort = vc.ty.sort(tk)
    vc.opf = z3.Function("op", vc.tsort, vc.tsort, vc.tsort)
    size, root, p = [vc.fresh_int(n) for n in ("size", "root", "p")]
    vc.assume(z3.And(size >= 1, size <= LIM, 0 <= root, root < size, 0 <= p, p < size))
    vc.assumptions = ["at most 2^29 processes", "MPI delivers each message to the matching receive (MPI standard); what is received is what was sent (C08)"]
    return size, root, p


def fake(size, root, p):
    """distance from the root: the measure along which the tree is well founded"""
    return z3.If(p >= root, p - root, p - root + size)


def sel(vc, evs, p):
    """the event with peer p (fork over the possibilities)"""
    for e in evs:
        if vc.branch(e[1] == p):
            return e
    return None


def spec_bcast(vc, f):
    install(vc)

    def val(name):
        return vc.fresh(name, vc.tsort)

    def body():
        vc.reset()
        size, root, p = start(vc, f)
        P = Rank(vc, f, size, p, [vc.new_lv(val("value_p")), root], "p")
        vp = None
        vc.prove("every process receives at most once", len(P.recvs()) <= 1)
        if not P.recvs():
            vc.prove("only the root receives nothing", p == root)
        else:
            q = P.recvs()[0][1]
            vc.prove("the root receives nothing", p != root)
            vc.prove("a process receives before it sends", P.ev[0][0] == "recv")
            vc.prove("the source is a process", z3.And(0 <= q, q < size))
            vc.prove("the source is nearer to the root", fake(size, root, q) < fake(size, root, p))
            vc.prove("the result is what was received", P.result == P.recvs()[0][2])
            Q = Rank(vc, f, size, q, [vc.new_lv(val("value_q")), root], "q")
            vc.prove("the source sends to this process exactly once", count(Q.sends(), p) == 1)
            for e in Q.sends():
                vc.prove("what is sent is the sender's own result", z3.Implies(e[1] == p, e[2] == Q.result))
        for e in P.sends():
            d = e[1]
            vc.prove("messages go to processes", z3.And(0 <= d, d < size, d != p))
            D = Rank(vc, f, size, d, [vc.new_lv(val("value_d")), root], "d")
            vc.prove("every message is received: the destination waits for exactly this sender", z3.And(I(len(D.recvs())) == 1, D.recvs()[0][1] == p) if D.recvs() else z3.BoolVal(False))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)

    def root_body():
        vc.reset()
        size, root, p = start(vc, f)
        v = val("value")
        R = Rank(vc, f, size, root, [vc.new_lv(v), root], "root")
        vc.prove("the root keeps its own value", R.result == v)

    vc.explore(root_body)
    # from the pairwise facts: every process ends with the root's value
    res = z3.Function("res", Int, vc.tsort)
    F = z3.Function("F", Int, Int)
    a, n, k = z3.Ints("a n k")
    v = z3.Const("v", vc.tsort)
    ax = [res(0) == v, z3.ForAll([a], z3.Implies(a > 0, z3.And(F(a) >= 0, F(a) < a, res(a) == res(F(a)))), patterns=[res(a)])]
    induct(vc, "by induction on the distance from the root every process has the root's value", lambda m: z3.ForAll([a], z3.Implies(z3.And(0 <= a, a <= m), res(a) == v), patterns=[res(a)]), 0, extra=ax)
    vc.axioms = []


def spec_reduce(vc, f):
    install(vc)

    def val(name):
        return vc.fresh(name, vc.tsort)

    cnt = None

    def body():
        vc.reset()
        size, root, p = start(vc, f)
        cnt = z3.Function("count", vc.tsort, Int)  # how often one fixed process contributes to a value
        x, y = z3.Const("x", vc.tsort), z3.Const("y", vc.tsort)
        vc.assume(z3.ForAll([x, y], cnt(vc.opf(x, y)) == cnt(x) + cnt(y), patterns=[vc.opf(x, y)]))
        fop = vc.new_lv(Opaque("op"))
        own = val("value_p")
        P = Rank(vc, f, size, p, [vc.new_lv(own), root, fop], "p")
        got = z3.Sum([cnt(e[2]) for e in P.recvs()] + [cnt(own)]) if P.recvs() else cnt(own)
        out = P.sends()
        vc.prove("every process passes on at most once", len(out) <= 1)
        if out:
            q = out[0][1]
            vc.prove("the root passes nothing on", p != root)
            vc.prove("a process passes on after it has received everything", P.ev[-1][0] == "send")
            vc.prove("the destination is a process nearer to the root", z3.And(0 <= q, q < size, fake(size, root, q) < fake(size, root, p)))
            vc.prove("what is passed on contains the own value and each received value exactly once", cnt(out[0][2]) == got)
            Q = Rank(vc, f, size, q, [vc.new_lv(val("value_q")), root, fop], "q")
            vc.prove("the destination receives from this process exactly once", count(Q.recvs(), p) == 1)
        else:
            vc.prove("only the root passes nothing on", p == root)
            vc.prove("the root's result contains its own value and each received value exactly once", cnt(P.result) == got)
        for i, e in enumerate(P.recvs()):
            s = e[1]
            vc.prove("values come from other processes", z3.And(0 <= s, s < size, s != p))
            S = Rank(vc, f, size, s, [vc.new_lv(val("value_s")), root, fop], "s")
            vc.prove("every receive is matched: the source passes on to this process", z3.And(I(len(S.sends())) == 1, S.sends()[0][1] == p) if S.sends() else z3.BoolVal(False))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)
    tree_lemma(vc)


def tree_lemma(vc):
    """From the pairwise facts (each node other than 0 has one parent, nearer to the root, that takes from exactly its
    children, at most two of them): the root's value contains every process exactly once.
    anc(r,t): r lies on the path from t to the root; m(r): contributions of process t in what r passes on."""
    anc = z3.Function("anc", Int, Int, Bool)
    m = z3.Function("m", Int, Int, Int)
    F = z3.Function("F", Int, Int)
    c1, c2 = z3.Function("c1", Int, Int), z3.Function("c2", Int, Int)  # -1: absent
    r, t, n = z3.Ints("r t n")
    B = lambda b: z3.If(b, I(1), I(0))
    inside = lambda x: z3.And(0 <= x, x < n)
    hyp = [
        n >= 1,
        z3.ForAll([t], z3.Implies(z3.And(0 < t, t < n), z3.And(F(t) >= 0, F(t) < t, z3.Or(c1(F(t)) == t, c2(F(t)) == t))), patterns=[F(t)]),
        z3.ForAll([r], z3.Implies(inside(r), z3.And(z3.Implies(c1(r) != -1, z3.And(r < c1(r), c1(r) < n, F(c1(r)) == r, c1(r) != c2(r))), z3.Implies(c2(r) != -1, z3.And(r < c2(r), c2(r) < n, F(c2(r)) == r)))), patterns=[c1(r)]),
        z3.ForAll([r, t], z3.Implies(z3.And(inside(r), inside(t)), anc(r, t) == z3.Or(r == t, z3.And(t > 0, anc(r, F(t))))), patterns=[anc(r, t)]),
        z3.ForAll([r, t], z3.Implies(z3.And(inside(r), inside(t)), m(r, t) == B(r == t) + z3.If(c1(r) != -1, m(c1(r), t), I(0)) + z3.If(c2(r) != -1, m(c2(r), t), I(0))), patterns=[m(r, t)]),
    ]
    a1 = lambda r, t: z3.And(c1(r) != -1, anc(c1(r), t))
    a2 = lambda r, t: z3.And(c2(r) != -1, anc(c2(r), t))
    step1 = lambda r, t: z3.And(anc(r, t) == z3.Or(r == t, a1(r, t), a2(r, t)), z3.Not(z3.And(a1(r, t), a2(r, t))), z3.Implies(r == t, z3.And(z3.Not(a1(r, t)), z3.Not(a2(r, t)))), z3.Implies(anc(r, t), r <= t), z3.Implies(r == 0, anc(r, t)))
    k = z3.Int("k")
    P = lambda j: z3.ForAll([r, t], z3.Implies(z3.And(inside(r), 0 <= t, t <= j, t < n), step1(r, t)), patterns=[anc(r, t)])
    # anc lies below: bounded first
    L = lambda j: z3.ForAll([r, t], z3.Implies(z3.And(inside(r), 0 <= t, t <= j, t < n), z3.And(z3.Implies(anc(r, t), r <= t), z3.Implies(r == 0, anc(r, t)))), patterns=[anc(r, t)])
    ok = induct(vc, "ancestors are nearer to the root", L, 0, extra=hyp)
    L_all = z3.ForAll([r, t], z3.Implies(z3.And(inside(r), inside(t)), z3.And(z3.Implies(anc(r, t), r <= t), z3.Implies(r == 0, anc(r, t)))), patterns=[anc(r, t)])
    vc.axioms = []
    S = lambda j: z3.ForAll([r, t], z3.Implies(z3.And(inside(r), 0 <= t, t <= j, t < n), z3.And(anc(r, t) == z3.Or(r == t, a1(r, t), a2(r, t)), z3.Not(z3.And(a1(r, t), a2(r, t))), z3.Implies(r == t, z3.And(z3.Not(a1(r, t)), z3.Not(a2(r, t)))))), patterns=[anc(r, t)])
    ok = induct(vc, "a process lies below a node iff it is the node or lies below exactly one child", S, 0, extra=hyp + [L_all]) and ok
    vc.axioms = []
    S_all = z3.ForAll([r, t], z3.Implies(z3.And(inside(r), inside(t)), z3.And(anc(r, t) == z3.Or(r == t, a1(r, t), a2(r, t)), z3.Not(z3.And(a1(r, t), a2(r, t))), z3.Implies(r == t, z3.And(z3.Not(a1(r, t)), z3.Not(a2(r, t)))))), patterns=[anc(r, t)])
    M = lambda j: z3.ForAll([r, t], z3.Implies(z3.And(inside(r), n - j <= r, inside(t)), m(r, t) == B(anc(r, t))), patterns=[m(r, t)])
    ok = induct(vc, "a value contains process t once iff t lies below", M, 0, extra=hyp + [S_all, L_all]) and ok
    vc.axioms = []
    M_all = z3.ForAll([r, t], z3.Implies(z3.And(inside(r), inside(t)), m(r, t) == B(anc(r, t))), patterns=[m(r, t)])
    lemma(vc, "the root's value contains every process exactly once", z3.Implies(inside(t), m(0, t) == 1), pc=hyp + [L_all, M_all], axiom=False)


def spec_sendrecv(vc, f):
    install(vc)

    def body():
        vc.reset()
        size, root, p = start(vc, f)
        src, dst = [vc.fresh_int(n) for n in ("src", "dst")]
        vc.assume(z3.And(0 <= src, src < size, 0 <= dst, dst < size))
        v = vc.fresh("value", vc.tsort)
        P = Rank(vc, f, size, p, [vc.new_lv(v), src, dst], "p")
        vc.prove("only the source sends, once, its value, to the destination", z3.And(I(len(P.sends())) == z3.If(z3.And(p == src, src != dst), I(1), I(0)), *[z3.And(e[1] == dst, e[2] == v) for e in P.sends()]))
        vc.prove("only the destination receives, once, from the source", z3.And(I(len(P.recvs())) == z3.If(z3.And(p == dst, src != dst), I(1), I(0)), *[e[1] == src for e in P.recvs()]))
        if P.recvs():
            vc.prove("the destination returns what it received", P.result == P.recvs()[0][2])
        vc.prove("a transfer to oneself returns the value", z3.Implies(z3.And(src == dst, p == dst), P.result == v))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


def p2p(vc):
    """MPI's point-to-point calls and the string streams, as assumed contracts"""
    vc.ty.atoms.update({"TAT::Tensor", "std::basic_string"})
    vc.merge_ifs = False
    st = {}
    strs = [k for k, t in vc.ir.types.items() if t.get("name") == "std::basic_string" and t["k"] == "rec"]
    S = vc.ty.sort(strs[0])
    tens = [k for k, t in vc.ir.types.items() if t.get("name") == "TAT::Tensor" and t["k"] == "rec"]
    Tn = vc.ty.sort(tens[0])
    ser, des, slen = z3.Function("ser", Tn, S), z3.Function("des", S, Tn), z3.Function("strlen", S, Int)
    msg = z3.Function("message_from", Int, Int, S)

    def need(vc):
        if vc.nofork:
            raise NoMerge()

    def content(x):
        v = vc.load(x) if isinstance(x, LV) else x
        return v.f["content"] if isinstance(v, PyStruct) and "content" in v.f else None

    def w(vc, fr, obj, args, loc):
        vals = ([obj] if obj is not None else []) + args
        need(vc)
        st.setdefault("written", []).append(vc.rv(vals[1]))
        vc.store[vals[0].cell] = PyStruct({"content": ser(vc.rv(vals[1]))})
        return vals[0]

    def r(vc, fr, obj, args, loc):
        vals = ([obj] if obj is not None else []) + args
        c = content(vals[0])
        if c is None:
            raise Unsupported("reading from an unknown stream")
        vc.write(vals[1], des(c))
        return vals[0]

    def s_str(vc, fr, obj, args, loc):
        c = content(obj)
        if c is None:
            raise Unsupported("str() of an unknown stream")
        return c

    def payload(p):
        p = vc.rv(p)
        if not isinstance(p, Ptr) or p.lv is None:
            raise Unsupported("message buffer")
        return p.lv

    def i(x):
        return vc.to_int(vc.rv(x))

    def send(vc, fr, obj, args, loc):
        need(vc)
        lv = payload(args[0])
        vc.prove("send: the count is the size of the buffer", i(args[1]) == slen(vc.load(lv)), loc)
        st.setdefault("sent", []).append((vc.load(lv), i(args[3]), i(args[4])))
        return I(0)

    def probe(vc, fr, obj, args, loc):
        need(vc)
        st["probed"] = (i(args[0]), i(args[1]))
        return I(0)

    def get_count(vc, fr, obj, args, loc):
        if "probed" not in st:
            raise Unsupported("count of an unknown status")
        lv = vc.deref(vc.rv(args[2]))
        vc.write(lv, slen(msg(*st["probed"])))
        return I(0)

    def recv(vc, fr, obj, args, loc):
        need(vc)
        lv = payload(args[0])
        src, tag = i(args[3]), i(args[4])
        vc.prove("receive: the buffer holds the count", i(args[1]) <= slen(vc.load(lv)), loc)
        vc.prove("receive: the message fits", slen(msg(src, tag)) <= i(args[1]), loc)
        old = vc.load(lv)
        new = vc.fresh("buffer", S)
        vc.assume(z3.And(slen(new) == slen(old), z3.Implies(slen(old) == slen(msg(src, tag)), new == msg(src, tag))))
        vc.write(lv, new)
        st.setdefault("received", []).append((src, tag))
        return I(0)

    q = lambda *n: (lambda fr: fr["q"] in n)
    vc.contracts = [
        (q("MPI_Send"), send),
        (q("MPI_Probe"), probe),
        (q("MPI_Get_count"), get_count),
        (q("MPI_Recv"), recv),
        (q("TAT::operator<"), w),
        (q("TAT::operator>"), r),
        (lambda fr: fr["q"].endswith("stringstream::str"), s_str),
        (lambda fr: "_guard" in fr["q"] or fr["q"].startswith("TAT::timer"), lambda vc, fr, obj, args, loc: Opaque("timer")),
        (q("std::basic_string::data", "std::basic_string::c_str"), lambda vc, fr, obj, args, loc: Ptr(vc.as_lv(obj))),
        (q("std::basic_string::length", "std::basic_string::size"), lambda vc, fr, obj, args, loc: slen(vc.rv(obj))),
    ]

    def c_string(vc, tkey, fr, args, loc):
        vals = [vc.rv(vc.ev(a)) for a in args]
        if len(vals) >= 2 and z3.is_int(vals[0]):
            v = vc.fresh("string", S)
            vc.assume(slen(v) == vals[0])
            return v
        raise Unsupported("string constructor")

    def c_stream(vc, tkey, fr, args, loc):
        vals = [vc.rv(vc.ev(a)) for a in args]
        for v in vals:
            if isinstance(v, z3.ExprRef) and v.sort() == S:
                return PyStruct({"content": v})
        return Opaque("stream")

    from tatv import stdmodels

    vc.atom_ctors = {"std::basic_string": c_string}
    vc.models["ctor:std::basic_istringstream::basic_istringstream"] = c_stream
    vc.models["ctor:std::basic_ostringstream::basic_ostringstream"] = c_stream
    vc.models["ctor:std::basic_stringstream::basic_stringstream"] = c_stream
    return st, ser, des, slen, msg, Tn, S


def tag_of(vc):
    """the tag is whatever constant send uses; receive has to use the same"""
    return None


def spec_send(vc, f):
    st, ser, des, slen, msg, Tn, S = p2p(vc)

    def body():
        vc.reset()
        st.clear()
        vc.assumptions = ["MPI_Send/Probe/Get_count/Recv as the MPI standard says", "a message is shorter than 2^31 bytes", "reading back what was written is C08"]
        x = z3.Const("x", S)
        vc.assume(z3.ForAll([x], z3.And(slen(x) >= 0, slen(x) < (1 << 31)), patterns=[slen(x)]))
        v = vc.fresh("value", Tn)
        d = vc.fresh_int("destination", f["params"][1]["type"])
        vc.invoke(f, [vc.new_lv(v), d], None, "")
        sent = st.get("sent", [])
        vc.prove("exactly one message, to the destination, holding the serialised value", z3.And(I(len(sent)) == 1, *[z3.And(e[1] == d, e[0] == ser(v)) for e in sent]))
        # the receiving side of the same program, from any source, with the tag of this message
        g = [h for h in vc.ir.funcs.values() if h["q"] == "TAT::mpi_t::receive"]
        if not g:
            raise Unsupported("receive not found")
        s = vc.fresh_int("source", g[0]["params"][0]["type"])
        r = vc.rv(vc.invoke(g[0], [s], None, ""))
        rec = st.get("received", [])
        vc.prove("exactly one message is received, from the source, with the tag that send uses", z3.And(I(len(rec)) == 1, *[z3.And(e[0] == s, e[1] == sent[0][2]) for e in rec]))
        vc.prove("the result is what the message holds", r == des(msg(s, sent[0][2])))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    vc.explore(body)


SPECS = [
    ("send and receive", "TAT::mpi_t::send", spec_send),
    ("send_receive", "TAT::mpi_t::send_receive", spec_sendrecv),
    ("broadcast", "TAT::mpi_t::broadcast", spec_bcast),
    ("reduce", "TAT::mpi_t::reduce", spec_reduce),
]
