// PARTS 6
// contraction against summation over paired indices
#include "ref.hpp"
using namespace ref;

template<typename S>
Edge<S> partner(Rng& r, const Edge<S>& e, bool drop) {
   Edge<S> o;
   for (auto& [s, d] : e.map)
      if (!(drop && r.coin(4))) o.map[neg(s)] = d;
   if (drop && !is_none<S> && r.coin(3)) {
      S s = random_charge<S>(r, 2);
      if (!o.map.count(s) && !e.map.count(neg(s))) o.map[s] = r(1, 3);
   }
   if constexpr (is_fermi<S>) o.arrow = !e.arrow;
   if constexpr (is_none<S>) o = e;
   return o;
}

template<typename T, typename S>
void contract_case(Rng& r) {
   size_t rank1 = r(0, 4), rank2 = r(0, 4);
   auto t1 = random_tensor<T, S>(r, rank1, "", 3);
   auto a = read(t1);
   size_t nc = std::min({rank1, rank2, size_t(r(0, 3))});
   size_t nf = is_none<S> && r.coin(3) ? std::min(std::min(rank1, rank2) - nc, size_t(r(0, 2))) : 0;
   std::vector<size_t> p1(rank1), p2(rank2);
   for (size_t i = 0; i < rank1; i++) p1[i] = i;
   for (size_t i = 0; i < rank2; i++) p2[i] = i;
   r.shuffle(p1);
   r.shuffle(p2);
   std::vector<Edge<S>> e2;
   for (size_t i = 0; i < rank2; i++) e2.push_back(random_edge<S>(r, 2, 3, false));
   auto n2 = make_names(rank2, r.coin() ? "y" : "z");
   std::vector<std::pair<std::string, std::string>> pairs;
   for (size_t i = 0; i < nc; i++) {
      e2[p2[i]] = partner<S>(r, a.edges[p1[i]], r.coin());
      if (r.coin(3)) n2[p2[i]] = a.names[p1[i]]; // the two sides may use the same name
      pairs.push_back({a.names[p1[i]], n2[p2[i]]});
   }
   for (size_t i = nc; i < nc + nf; i++) {
      e2[p2[i]] = a.edges[p1[i]];
      n2[p2[i]] = a.names[p1[i]];
   }
   // let the free legs of the second tensor absorb the charge
   if constexpr (!is_none<S>)
      if (rank2 && !r.coin(8)) {
         S rest = S();
         for (size_t i = 0; i + 1 < rank2; i++)
            if (!e2[p2[i]].map.empty()) rest = add(rest, std::next(e2[p2[i]].map.begin(), r(0, int(e2[p2[i]].map.size()) - 1))->first);
         auto& last = e2[p2[rank2 - 1]];
         if (rank2 > nc && !last.map.count(neg(rest))) last.map[neg(rest)] = r(1, 3);
      }
   auto t2 = build<T, S>(n2, e2, r);
   auto b = read(t2);
   std::set<std::tuple<DefaultName, DefaultName>> ps;
   for (auto& [x, y] : pairs) ps.insert({DefaultName(x), DefaultName(y)});
   g_desc = show(t1) + " * " + show(t2) + " pairs";
   for (auto& [x, y] : pairs) g_desc += " " + x + "-" + y;
   auto got = t1.contract(t2, ps);
   auto want = contracted(a, b, pairs);
   std::vector<R<T, S>> alt;
   if (!is_none<S> && nc >= 2) {
      // recorded finding: several legs of a symmetric tensor contracted at once
      auto o1 = pairs, o2 = pairs;
      std::sort(o1.begin(), o1.end(), [&](auto& x, auto& y) { return a.index(x.first) < a.index(y.first); });
      std::sort(o2.begin(), o2.end(), [&](auto& x, auto& y) { return b.index(x.second) < b.index(y.second); });
      alt = {contracted(a, b, o1, true), contracted(a, b, o2, true)};
   }
   same_or_known(read(got), want, alt, "several-legs-at-once", "contract");
   same(read(t1), a, "first operand of contract");
   same(read(t2), b, "second operand of contract");
   // mismatching edges are rejected
   if (nc >= 1 && r.coin(3)) {
      auto e3 = e2;
      auto& e = e3[p2[0]];
      bool bad = false;
      for (auto& [s, d] : e.map)
         if (t1.core->edges[p1[0]].map.count(neg(s))) {
            d += 1;
            bad = true;
         }
      auto t3 = build<T, S>(n2, e3, r);
      if constexpr (!is_none<S>) {
         bad = false;
         for (auto& [s, d] : t3.core->edges[p2[0]].map) {
            auto f = t1.core->edges[p1[0]].map.find(neg(s));
            if (f != t1.core->edges[p1[0]].map.end() && f->second != d) bad = true;
         }
      }
      g_desc = show(t1) + " * " + show(t3) + " pair " + pairs[0].first + "-" + pairs[0].second + " of different dimension";
      if (bad && !throws([&] { (void)t1.contract(t3, ps); })) report("contracting legs of different dimension was accepted");
   }
   if constexpr (is_fermi<S>)
      if (nc >= 1 && r.coin(3)) {
         auto e3 = e2;
         e3[p2[0]].arrow = !e3[p2[0]].arrow;
         auto t3 = build<T, S>(n2, e3, r);
         g_desc = show(t1) + " * " + show(t3) + " same arrow";
         if (!throws([&] { (void)t1.contract(t3, ps); })) report("contracting legs of the same arrow was accepted");
      }
   if (nc >= 2) {
      auto dup = ps;
      dup.insert({DefaultName(pairs[0].first), DefaultName(pairs[1].second)});
      if (!throws([&] { (void)t1.contract(t2, dup); })) report("a leg contracted twice was accepted");
   }
   // names that do not exist are ignored
   auto extra = ps;
   extra.insert({DefaultName("no-such-leg"), DefaultName("no-such-leg")});
   g_desc += " plus an unknown pair";
   same(read(t1.contract(t2, extra)), read(got), "contract with an unknown pair");
}

template<typename S>
void mixed(Rng& r) {
   auto t1 = random_tensor<double, S>(r, 2, "", 3);
   auto a = read(t1);
   std::vector<Edge<S>> e2{partner<S>(r, a.edges[1], false), random_edge<S>(r, 2, 3, false)};
   auto t2 = build<std::complex<double>, S>({"P", "Q"}, e2, r);
   auto b = read(t2);
   R<std::complex<double>, S> ca;
   ca.names = a.names;
   ca.edges = a.edges;
   for (auto& [k, x] : a.v) ca.v[k] = x;
   std::set<std::tuple<DefaultName, DefaultName>> ps{{DefaultName(a.names[1]), DefaultName("P")}};
   g_desc = "real " + show(t1) + " * complex " + show(t2);
   auto got = t1.contract(t2, ps);
   static_assert(std::is_same_v<typename decltype(got)::scalar_t, std::complex<double>>);
   same(read(got), contracted(ca, b, {{a.names[1], "P"}}), "contract real with complex");
   std::set<std::tuple<DefaultName, DefaultName>> qs{{DefaultName("P"), DefaultName(a.names[1])}};
   auto got2 = t2.contract(t1, qs);
   same(read(got2), contracted(b, ca, {{"P", a.names[1]}}), "contract complex with real");
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"contract<double,none>", contract_case<double, NoSymmetry>},
               {"contract<complex,none>", contract_case<std::complex<double>, NoSymmetry>},
#endif
#if IN(1)
               {"contract<double,u1>", contract_case<double, U1Symmetry>},
               {"contract<float,z2>", contract_case<float, Z2Symmetry>},
#endif
#if IN(2)
               {"contract<double,fermi>", contract_case<double, FermiSymmetry>},
#endif
#if IN(3)
               {"contract<double,fermi-u1>", contract_case<double, FermiU1Symmetry>},
               {"contract<complex,fermi-z2>", contract_case<std::complex<double>, FermiZ2Symmetry>},
#endif
#if IN(4)
               {"contract<float,none>", contract_case<float, NoSymmetry>},
               {"contract<complex-float,u1>", contract_case<std::complex<float>, U1Symmetry>},
#endif
#if IN(5)
               {"mixed<none>", mixed<NoSymmetry>},
               {"mixed<fermi>", mixed<FermiSymmetry>},
#endif
         });
}
