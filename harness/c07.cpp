// PARTS 3
// element access addresses exactly the element at the multi-index
#include "ref.hpp"
using namespace ref;

template<typename S>
auto point(const Pt<S>& p) {
   if constexpr (is_none<S>) return p.i;
   else return std::tuple<S, Size>(p.s, p.i);
}

template<typename T, typename S>
void access(Rng& r) {
   auto t = random_tensor<T, S>(r, r(0, 5), "", 4, 1500);
   // legs whose names were interned in another order than they appear
   {
      std::map<DefaultName, DefaultName> ren;
      auto fresh = make_names(t.names.size(), "p");
      r.shuffle(fresh);
      for (size_t i = 0; i < fresh.size(); i++) ren[t.names[i]] = DefaultName(fresh[i]);
      t = t.edge_rename(ren).copy();
   }
   auto a = read(t);
   g_desc = show(t);
   using Point = typename Tensor<T, S>::EdgePoint;
   std::set<const T*> seen;
   Size total = 0;
   for (auto& [k, b] : t.core->blocks) total += b.size();
   const auto& ct = t;
   Size count = 0;
   for (auto& [k, x] : a.v) {
      std::map<DefaultName, Point> pos;
      for (size_t i = 0; i < a.rank(); i++) pos[DefaultName(a.names[i])] = point<S>(k[i]);
      const T* p = &ct.at(pos);
      if (p != &ct.const_at(pos)) report("at and const_at disagree");
      bool inside = false;
      for (auto& [q, b] : t.core->blocks) inside = inside || (p >= b.data() && p < b.data() + b.size());
      if (!inside) report("an in-range position addresses storage outside its block");
      if (!(*p == x)) report("reading by position returns another element");
      if (!seen.insert(p).second) report("two positions address the same element");
      if (&t.at(pos) != p) report("the writable reference addresses another element");
      pmr::map<DefaultName, Point> pos2(pos.begin(), pos.end());
      if (&ct.at(pos2) != p) report("the kind of map used for the position changes the element");
      count++;
   }
   if (seen.size() != total) report("some stored elements cannot be addressed");
   // a write changes exactly that element, also with an unsorted container of positions
   if (!a.v.empty()) {
      auto it = std::next(a.v.begin(), r(0, int(a.v.size()) - 1));
      std::map<DefaultName, Point> pos;
      for (size_t i = 0; i < a.rank(); i++) pos[DefaultName(a.names[i])] = point<S>(it->first[i]);
      auto want = a;
      want.v[it->first] = T(1234);
      t.at(pos) = T(1234);
      same(read(t), want, "writing one element");
      if (a.rank()) {
         auto miss = pos;
         miss.erase(DefaultName(a.names[r(0, int(a.rank()) - 1)]));
         if (!throws([&] { (void)ct.at(miss); })) report("a position without one of the legs was accepted");
         auto unknown = miss;
         unknown[DefaultName("unknown-leg")] = pos.begin()->second;
         if (!throws([&] { (void)ct.at(unknown); })) report("a position with an unknown leg instead of a leg was accepted");
         if (!throws([&] { t.at(unknown) = T(5); })) report("a write with an unknown leg was accepted");
         if constexpr (!is_none<S>) {
            auto badsym = pos;
            size_t i = r(0, int(a.rank()) - 1);
            S s = random_charge<S>(r, 9);
            if (!a.edges[i].map.count(s)) {
               badsym[DefaultName(a.names[i])] = std::tuple<S, Size>(s, 0);
               if (!throws([&] { (void)ct.at(badsym); })) report("a position with a quantum number the leg does not have was accepted");
            }
         }
      }
   }
   // whole blocks
   for (auto& [k, b] : t.core->blocks) {
      std::map<DefaultName, S> pos;
      for (size_t i = 0; i < a.rank(); i++) {
         if constexpr (is_none<S>) pos[DefaultName(a.names[i])] = S();
         else pos[DefaultName(a.names[i])] = k[i];
      }
      if (&ct.block(pos) != &b || &ct.const_block(pos) != &b || &t.block(pos) != &b) report("block access returns another block");
      if constexpr (!is_none<S>)
         if (a.rank()) {
            auto miss = pos;
            miss.erase(miss.begin());
            if (!throws([&] { (void)ct.block(miss); })) report("block access without one of the legs was accepted");
         }
   }
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"access<double,none>", access<double, NoSymmetry>},
               {"access<complex,none>", access<std::complex<double>, NoSymmetry>},
#endif
#if IN(1)
               {"access<double,u1>", access<double, U1Symmetry>},
               {"access<float,z2>", access<float, Z2Symmetry>},
#endif
#if IN(2)
               {"access<double,fermi>", access<double, FermiSymmetry>},
               {"access<double,fermi-u1>", access<double, FermiU1Symmetry>},
               {"access<double,fermi-z2>", access<double, FermiZ2Symmetry>},
#endif
         });
}
