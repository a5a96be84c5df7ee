// PARTS 4
// trace and identity
#include "ref.hpp"
using namespace ref;

template<typename T, typename S>
struct Paired {
   Tensor<T, S> t;
   std::vector<std::pair<std::string, std::string>> pairs;
};
template<typename T, typename S>
Paired<T, S> paired(Rng& r, size_t np, size_t nf) {
   Paired<T, S> p;
   std::vector<std::string> names;
   std::vector<Edge<S>> es;
   for (size_t i = 0; i < np; i++) {
      auto e = random_edge<S>(r, np > 1 ? 2 : 3, 2, r.coin(6));
      Edge<S> o;
      for (auto& [s, d] : e.map) o.map[neg(s)] = d;
      if constexpr (is_fermi<S>) o.arrow = !e.arrow;
      std::string x = "p" + std::to_string(i), y = "q" + std::to_string(i);
      names.push_back(x);
      es.push_back(e);
      names.push_back(y);
      es.push_back(o);
      if (r.coin()) std::swap(x, y);
      p.pairs.push_back({x, y});
   }
   S rest = S();
   for (size_t i = 0; i < nf; i++) {
      auto e = random_edge<S>(r, 2, 2, false);
      if constexpr (!is_none<S>) {
         if (i + 1 == nf && !r.coin(6)) {
            if (!e.map.count(neg(rest))) e.map[neg(rest)] = r(1, 2);
         } else if (!e.map.empty())
            rest = add(rest, e.map.begin()->first);
      }
      names.push_back("f" + std::to_string(i));
      es.push_back(e);
   }
   std::vector<size_t> o(names.size());
   for (size_t i = 0; i < o.size(); i++) o[i] = i;
   r.shuffle(o);
   std::vector<std::string> n2;
   std::vector<Edge<S>> e2;
   for (auto i : o) {
      n2.push_back(names[i]);
      e2.push_back(es[i]);
   }
   p.t = build<T, S>(n2, e2, r);
   return p;
}

template<typename T, typename S>
void trace_case(Rng& r) {
   size_t np = r(0, 2), nf = r(0, 2);
   auto [t, pairs] = paired<T, S>(r, np, nf);
   auto a = read(t);
   std::set<std::tuple<DefaultName, DefaultName>> ps;
   g_desc = show(t) + " trace";
   for (auto& [x, y] : pairs) {
      ps.insert({DefaultName(x), DefaultName(y)});
      g_desc += " " + x + "-" + y;
   }
   auto got = t.trace(ps);
   auto want = traced(a, pairs);
   std::vector<R<T, S>> alt;
   if (!is_none<S> && np >= 2) {
      auto o = pairs;
      for (auto& [x, y] : o)
         if (a.index(x) > a.index(y)) std::swap(x, y);
      std::sort(o.begin(), o.end(), [&](auto& x, auto& y) { return std::max(a.index(x.first), a.index(x.second)) > std::max(a.index(y.first), a.index(y.second)); });
      alt.push_back(traced(a, o, true));
   }
   same_or_known(read(got), want, alt, "several-legs-at-once", "trace");
   same(read(t), a, "operand of trace");
}

// the identity on a pairing: one exactly where the paired indices agree
template<typename T, typename S>
void identity_case(Rng& r) {
   size_t np = r(0, 2);
   auto [t, pairs] = paired<T, S>(r, np, 0);
   auto a = read(t);
   std::set<std::tuple<DefaultName, DefaultName>> ps;
   g_desc = show(t) + " identity";
   for (auto& [x, y] : pairs) {
      ps.insert({DefaultName(x), DefaultName(y)});
      g_desc += " " + x + "-" + y;
   }
   auto id = t.identity(ps);
   auto g = read(id);
   if (g.names != a.names) report("identity has other legs");
   for (auto& [k, x] : g.v) {
      bool diag = true;
      for (auto& [p, q] : pairs) {
         auto &i = k[a.index(p)], &j = k[a.index(q)];
         diag = diag && i == Pt<S>{neg(j.s), j.i};
      }
      if (diag ? std::abs(x) != 1 : x != T(0)) report("identity: an element " + std::string(diag ? "on" : "off") + " the diagonal is wrong");
      if (diag && !is_fermi<S> && x != T(1)) report("identity: a diagonal element is not one");
   }
   if (g.v.size() != a.v.size()) report("identity has another shape");
   same(read(t), a, "operand of identity");
   // contracting with the identity over one pair gives the tensor back
   if (np == 1) {
      auto [p, q] = pairs[0];
      // vector on the leg p
      auto b = random_tensor<T, S>(r, 1, "", 2);
      std::vector<Edge<S>> es{t.core->edges[a.index(q)]};
      // matrix whose first leg can be contracted with leg p of the identity
      Edge<S> e1;
      for (auto& [s, d] : a.edges[a.index(p)].map) e1.map[neg(s)] = d;
      if constexpr (is_fermi<S>) e1.arrow = !a.edges[a.index(p)].arrow;
      Edge<S> e2;
      for (auto& [s, d] : e1.map) e2.map[neg(s)] = r(1, 2);
      auto m = build<T, S>({"u", "w"}, {e1, e2}, r);
      auto res = read(m.contract(id, std::set<std::tuple<DefaultName, DefaultName>>{{DefaultName("u"), DefaultName(p)}}));
      auto mm = read(m);
      // res[w, q] = m[u, w] with u the same index as q (the identity passes it through)
      for (auto& [k, x] : mm.v) {
         std::vector<Pt<S>> kk{k[1], k[0]};
         auto f = res.v.find(kk);
         T y = f == res.v.end() ? T(0) : f->second;
         if (std::abs(x) != std::abs(y) || (!is_fermi<S> && x != y)) report("contracting with the identity changes an element");
      }
   }
   // trace of the identity counts the diagonal (symmetries without fermions)
   if (!is_fermi<S> && np == 1) {
      auto tr = read(id.trace(ps));
      double n = 0;
      for (auto& [k, x] : g.v) n += std::abs(x);
      double y = tr.v.empty() ? 0 : std::abs(tr.v.begin()->second);
      if (y != n) report("trace of the identity is " + std::to_string(y) + " not " + std::to_string(n));
   }
}

// trace equals contraction with the identity over the same pair
template<typename T, typename S>
void trace_is_contraction(Rng& r) {
   auto [t, pairs] = paired<T, S>(r, 1, r(0, 2));
   auto a = read(t);
   g_desc = show(t) + " trace vs identity";
   auto [p, q] = pairs[0];
   std::set<std::tuple<DefaultName, DefaultName>> ps{{DefaultName(p), DefaultName(q)}};
   auto tr = read(t.trace(ps));
   // sum by hand for symmetries without fermions
   if constexpr (!is_fermi<S>) {
      std::map<std::vector<Pt<S>>, T> w;
      for (auto& [k, x] : a.v) {
         auto &i = k[a.index(p)], &j = k[a.index(q)];
         if (!(i == Pt<S>{neg(j.s), j.i})) continue;
         std::vector<Pt<S>> f;
         for (size_t z = 0; z < k.size(); z++)
            if (z != a.index(p) && z != a.index(q)) f.push_back(k[z]);
         w[f] += x;
      }
      for (auto& [k, x] : w) {
         auto f = tr.v.find(k);
         T y = f == tr.v.end() ? T(0) : f->second;
         if (x != y) report("trace is not the sum over the diagonal");
      }
      for (auto& [k, y] : tr.v)
         if (y != T(0) && !w.count(k)) report("trace has an element that should not exist");
   }
   // dimensions that do not match are rejected
   if (r.coin(3)) {
      auto es = t.core->edges;
      bool bad = false;
      for (auto& [s, d] : es[a.index(p)].map) d += 1;
      auto t2 = build<T, S>(a.names, es, r);
      for (auto& [s, d] : t2.core->edges[a.index(p)].map) {
         auto f = t2.core->edges[a.index(q)].map.find(neg(s));
         if (f == t2.core->edges[a.index(q)].map.end()) continue;
         // a block of the free legs with zero charge must exist for the mismatch to be seen
         for (auto& [k, b] : t2.core->blocks) {
            if constexpr (is_none<S>) bad = bad || f->second != d;
            else if (comps(k[a.index(p)]) == comps(s) && comps(k[a.index(q)]) == comps(neg(s)) && f->second != d) bad = true;
         }
      }
      if (bad && !throws([&] { (void)t2.trace(ps); })) report("trace over legs of different dimension is accepted");
   }
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"trace<double,none>", trace_case<double, NoSymmetry>},
               {"identity<double,none>", identity_case<double, NoSymmetry>},
               {"diagonal<double,none>", trace_is_contraction<double, NoSymmetry>},
#endif
#if IN(1)
               {"trace<double,u1>", trace_case<double, U1Symmetry>},
               {"identity<double,u1>", identity_case<double, U1Symmetry>},
               {"diagonal<double,u1>", trace_is_contraction<double, U1Symmetry>},
#endif
#if IN(2)
               {"trace<complex,fermi>", trace_case<std::complex<double>, FermiSymmetry>},
               {"identity<complex,fermi>", identity_case<std::complex<double>, FermiSymmetry>},
#endif
#if IN(3)
               {"trace<double,fermi-u1>", trace_case<double, FermiU1Symmetry>},
               {"trace<float,z2>", trace_case<float, Z2Symmetry>},
               {"diagonal<double,z2>", trace_is_contraction<double, Z2Symmetry>},
#endif
         });
}
