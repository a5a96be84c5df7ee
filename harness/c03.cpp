// PARTS 2
// a constructed tensor has exactly the blocks the symmetry allows
#include "ref.hpp"
using namespace ref;

template<typename S>
void blocks(Rng& r) {
   size_t rank = r(0, 5);
   std::vector<Edge<S>> es;
   int w = r.coin(4) ? 3 : 1;
   for (size_t i = 0; i < rank; i++) es.push_back(random_edge<S>(r, rank <= 3 ? 4 : 2, 3, r.coin(3), w));
   if (rank >= 2 && r.coin()) {
      Edge<S> e;
      for (auto& [s, d] : es[0].map) e.map[neg(s)] = r(1, 3);
      if constexpr (is_fermi<S>) e.arrow = r.coin();
      es[rank - 1] = e;
   }
   g_desc = "edges";
   for (auto& e : es) g_desc += " " + show<S>(e);
   auto names = make_names(rank);
   auto t = Tensor<double, S>(N(names), es);
   // enumerate the allowed combinations
   std::map<std::vector<std::vector<long>>, Size> want;
   std::vector<std::set<std::vector<long>>> used(rank);
   std::function<void(size_t, std::vector<S>, Size)> go = [&](size_t i, std::vector<S> k, Size d) {
      if (i == rank) {
         if (!zero_sum(k)) return;
         std::vector<std::vector<long>> q;
         for (size_t j = 0; j < rank; j++) {
            q.push_back(comps(k[j]));
            used[j].insert(comps(k[j]));
         }
         want[q] = d;
         return;
      }
      for (auto& [s, n] : es[i].map) {
         auto k2 = k;
         k2.push_back(s);
         go(i + 1, k2, d * n);
      }
   };
   go(0, {}, 1);
   if (t.core->blocks.size() != want.size()) report("the tensor has " + std::to_string(t.core->blocks.size()) + " blocks but symmetry allows " + std::to_string(want.size()));
   for (auto& [k, b] : t.core->blocks) {
      std::vector<std::vector<long>> q;
      for (auto& s : k) q.push_back(comps(s));
      auto f = want.find(q);
      if (f == want.end()) report("the tensor has a block that symmetry does not allow");
      if (f->second != b.size()) report("a block has " + std::to_string(b.size()) + " elements instead of " + std::to_string(f->second));
   }
   for (size_t i = 0; i < rank; i++) {
      auto& got = t.core->edges[i];
      if constexpr (is_fermi<S>)
         if (got.arrow != es[i].arrow) report("construction changed an arrow");
      for (auto& [s, d] : es[i].map) {
         bool keep = used[i].count(comps(s));
         auto f = got.map.find(s);
         if (keep != (f != got.map.end())) report(std::string("edge ") + std::to_string(i) + (keep ? " lost" : " kept") + " segment " + show(s));
         if (keep && f->second != d) report("edge " + std::to_string(i) + " changed the dimension of segment " + show(s));
      }
      for (auto& [s, d] : got.map)
         if (!es[i].map.count(s)) report("edge " + std::to_string(i) + " gained segment " + show(s));
   }
   read(t);
   // bad name lists
   if (rank >= 2) {
      auto dup = names;
      size_t i = r(0, int(rank) - 1), j = r(0, int(rank) - 1);
      if (i != j) {
         dup[i] = dup[j];
         if (!throws([&] { Tensor<double, S> x(N(dup), es); })) report("duplicated names " + std::to_string(i) + " and " + std::to_string(j) + " were accepted");
      }
   }
   if (rank >= 1) {
      auto fewer = names;
      fewer.pop_back();
      if (!throws([&] { Tensor<double, S> x(N(fewer), es); })) report("fewer names than edges were accepted");
   }
   auto more = names;
   more.push_back("extra");
   if (!throws([&] { Tensor<double, S> x(N(more), es); })) report("more names than edges were accepted");
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"blocks<none>", blocks<NoSymmetry>},
               {"blocks<z2>", blocks<Z2Symmetry>},
               {"blocks<u1>", blocks<U1Symmetry>},
#endif
#if IN(1)
               {"blocks<fermi>", blocks<FermiSymmetry>},
               {"blocks<fermi-z2>", blocks<FermiZ2Symmetry>},
               {"blocks<fermi-u1>", blocks<FermiU1Symmetry>},
#endif
         });
}
