"""C03 (names): a list of names is accepted exactly when it has the expected length and no repetition; the index of names is right"""
import z3
from tatv.engine import *
from tatv.lib import *
from tatv import stdmodels as sm

TU = "name.cpp"
ROOTS = r"TAT::(check_valid_name|construct_name_to_index)"


def spec_valid(vc, f):
    tks = [vc.ty.strip(p["type"]) for p in f["params"]]
    vc.merge_ifs = False
    vc.ty.atoms.add("std::basic_string")
    st = {}

    def body():
        vc.reset()
        names, rank = vc.symbolic("names", tks[0]), vc.symbolic("rank", tks[1])
        N = lambda k: z3.Select(arr(names), k)
        n = ln(names)
        st.update(N=N, n=n)
        a, b = z3.Ints("a b")
        distinct = lambda m: z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), N(a) != N(b)), patterns=[z3.MultiPattern(N(a), N(b))])
        try:
            r = vc.rv(vc.invoke(f, [vc.new_lv(names), vc.new_lv(rank)], None, ""))
        except ThrowEx:
            vc.prove("post: a good list of names is accepted", z3.Not(z3.And(n == rank, distinct(n))))
            return
        vc.prove("post: a list of the wrong length is rejected", n == rank)
        vc.prove("post: a repeated name is rejected", distinct(n))
        vc.prove("post: accepted", r)
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def gen(vc, sc):
        out = []
        N, n = st["N"], st["n"]
        a, b = z3.Ints("a b")
        ints = [x for x in sc.ints() if x[2]] + [("0", lambda vc: I(0), False)]
        fixed = [x for x in sc.ints() if not x[2]]
        for i_n, i, _ in ints:
            out.append(("no repetition with the first %s names" % i_n, lambda vc, i=i: z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < i(vc), a < b, b < n), N(a) != N(b)), patterns=[z3.MultiPattern(N(a), N(b))])))
            out.append(("no repetition among the first %s names" % i_n, lambda vc, i=i: z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < i(vc)), N(a) != N(b)), patterns=[z3.MultiPattern(N(a), N(b))])))
            for j_n, j, _ in [x for x in sc.ints() if x[0] != i_n]:
                out.append(("name %s differs from those up to %s" % (j_n, i_n), lambda vc, i=i, j=j: z3.ForAll([b], z3.Implies(z3.And(j(vc) < b, b < i(vc)), N(j(vc)) != N(b)), patterns=[N(b)])))
                out.append(("name %s differs from the first %s" % (j_n, i_n), lambda vc, i=i, j=j: z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < i(vc)), N(j(vc)) != N(b)), patterns=[N(b)])))
        return out

    vc.cand_gens = [generic_candidates, gen]
    vc.explore(body)


def spec_index(vc, f):
    """construct_name_to_index: every name of a list without repetition is found, with its position"""
    tk = vc.ty.strip(f["params"][0]["type"])
    rt = vc.ty.strip(f["ret"])
    vc.merge_ifs = False
    vc.ty.atoms.add("std::basic_string")
    st = {}

    def body():
        vc.reset()
        names = vc.symbolic("names", tk)
        N = lambda k: z3.Select(arr(names), k)
        n = ln(names)
        a, b = z3.Ints("a b")
        vc.assume(n <= 65535)
        vc.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), N(a) != N(b)), patterns=[z3.MultiPattern(N(a), N(b))]))
        st.update(N=N, n=n)
        if "mf" not in st:
            st["mf"] = sm.mfind_axiom(vc, vc.ty.sort(rt), arr(names).sort().range())
        r = vc.rv(vc.invoke(f, [vc.new_lv(names)], None, ""))
        # the position a name is looked up at
        k0 = z3.Int("k0")
        vc.assume(z3.And(0 <= k0, k0 < n))
        t = sm.map_find_index(vc, r, N(k0))
        vc.prove("post: every name is found", t < ln(r))
        vc.prove("post: with its position", z3.Select(acc(r, 1), t) == k0)
        p = z3.Int("p")
        vc.prove("post: nothing else is found", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(r)), z3.And(0 <= z3.Select(acc(r, 1), p), z3.Select(acc(r, 1), p) < n, N(z3.Select(acc(r, 1), p)) == z3.Select(acc(r, 0), p))), patterns=[z3.Select(acc(r, 0), p), z3.Select(acc(r, 1), p)]))
        vc.ends = getattr(vc, "ends", []) + [list(vc.pc)]

    def gen(vc, sc):
        out = []
        N, n = st["N"], st["n"]
        p = z3.Int("p")
        res = [(nm, g) for nm, g, m in sc.maps() if m]
        for nm, g in res:
            for i_n, i, m in sc.ints():
                if not m:
                    continue
                Kp, Vp = (lambda vc, g=g: z3.Select(acc(g(vc), 0), p)), (lambda vc, g=g: z3.Select(acc(g(vc), 1), p))
                out.append(("entries of %s below %s" % (nm, i_n), lambda vc, g=g, i=i, Kp=Kp, Vp=Vp: z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < ln(g(vc))), z3.And(0 <= Vp(vc), Vp(vc) < i(vc), N(Vp(vc)) == Kp(vc))), patterns=[Kp(vc), Vp(vc)])))
                # witness: the position of name k in the map
                out.append(("size of %s is %s" % (nm, i_n), lambda vc, g=g, i=i: ln(g(vc)) == i(vc)))
                k = z3.Int("k")
                mf = lambda vc: st["mf"]
                out.append(("first %s names are in %s" % (i_n, nm), lambda vc, g=g, i=i, mf=mf: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i(vc)), z3.And(0 <= mf(vc)(g(vc), N(k)), mf(vc)(g(vc), N(k)) < ln(g(vc)), z3.Select(acc(g(vc), 0), mf(vc)(g(vc), N(k))) == N(k))), patterns=[N(k)])))
        return out

    vc.cand_gens = [generic_candidates, gen]
    vc.explore(body)


SPECS = [
    ("check_valid_name", "TAT::check_valid_name", spec_valid),
    ("construct_name_to_index", "TAT::construct_name_to_index", spec_index),
]
