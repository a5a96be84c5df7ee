// PARTS 3
// shrink and expand
#include "ref.hpp"
using namespace ref;

template<typename T, typename S>
void shrink_case(Rng& r) {
   size_t rank = r(0, 4);
   auto t = random_tensor<T, S>(r, rank);
   auto a = read(t);
   // a position on some of the legs, chosen so that the selected charges are on their legs
   std::vector<std::optional<Pt<S>>> sel(rank);
   S total = S();
   size_t n = 0;
   g_desc = show(t) + " shrink";
   for (size_t i = 0; i < rank; i++) {
      if (r.coin() || a.edges[i].map.empty()) continue;
      auto it = std::next(a.edges[i].map.begin(), r(0, int(a.edges[i].map.size()) - 1));
      if (it->second == 0) continue;
      sel[i] = Pt<S>{it->first, Size(r(0, int(it->second) - 1))};
      total = add(total, it->first);
      n++;
      g_desc += " " + a.names[i] + "=" + show(it->first) + "#" + std::to_string(sel[i]->i);
   }
   using EP = typename Tensor<T, S>::EdgePoint;
   std::map<DefaultName, EP> conf;
   for (size_t i = 0; i < rank; i++)
      if (sel[i]) {
         if constexpr (is_none<S>) conf[DefaultName(a.names[i])] = sel[i]->i;
         else conf[DefaultName(a.names[i])] = EP{sel[i]->s, sel[i]->i};
      }
   bool charged = !is_none<S> && comps(total) != comps(S());
   bool leg = charged ? !r.coin(5) : r.coin();
   bool arrow = r.coin();
   if (charged && !leg) {
      if (!throws([&] { (void)t.shrink(conf); })) report("a charged slice without a leg to carry the charge is accepted");
      return;
   }
   auto got = leg ? t.shrink(conf, DefaultName("new"), arrow) : t.shrink(conf);
   // want: new leg (total charge, one dimension) first, then the remaining legs
   R<T, S> h; // helper: the legs that are fixed, conjugated, holding a single one
   std::vector<Pt<S>> pos;
   std::vector<std::pair<std::string, std::string>> pairs;
   for (size_t i = 0; i < rank; i++)
      if (sel[i]) {
         h.names.push_back(a.names[i]);
         Edge<S> e;
         e.map[neg(sel[i]->s)] = a.edges[i].map.at(sel[i]->s);
         if constexpr (is_fermi<S>) e.arrow = !a.edges[i].arrow;
         h.edges.push_back(e);
         pos.push_back({neg(sel[i]->s), sel[i]->i});
         pairs.push_back({a.names[i], a.names[i]});
      }
   if (leg) {
      h.names.push_back("new");
      Edge<S> e;
      e.map[total] = 1;
      if constexpr (is_fermi<S>) e.arrow = arrow;
      h.edges.push_back(e);
      pos.push_back({total, 0});
   }
   h.v[pos] = T(1);
   auto want = contracted(h, a, pairs);
   auto g = read(got);
   same(g, want, "shrink");
   // independent of the contraction convention: the selected elements, in place, up to sign
   std::map<std::vector<Pt<S>>, T> direct;
   for (auto& [k, x] : a.v) {
      std::vector<Pt<S>> q;
      if (leg) q.push_back({total, 0});
      bool in = true;
      for (size_t i = 0; i < rank; i++) {
         if (sel[i]) in = in && k[i] == *sel[i];
         else q.push_back(k[i]);
      }
      if (in) direct[q] = x;
   }
   for (auto& [k, x] : direct) {
      auto f = g.v.find(k);
      T y = f == g.v.end() ? T(0) : f->second;
      if (is_fermi<S> ? std::abs(x) != std::abs(y) : x != y) report("shrink: a selected element is wrong");
   }
   for (auto& [k, x] : g.v)
      if (x != T(0) && !direct.count(k)) report("shrink: an element that was not selected appears");
   same(read(t), a, "operand of shrink");
}

template<typename T, typename S>
void expand_case(Rng& r) {
   size_t rank = r(0, 3), extra = r(0, 3);
   using EA = typename Tensor<T, S>::EdgePointWithArrow;
   std::map<DefaultName, EA> conf;
   R<T, S> h;
   std::vector<Pt<S>> pos;
   struct X {
      std::string name;
      S s;
      Size i, d;
      bool arrow;
   };
   std::vector<X> xs;
   S total = S();
   for (size_t i = 0; i < extra; i++) {
      Size d = r(1, 3);
      X x{"e" + std::to_string(i), random_charge<S>(r, 2), Size(r(0, int(d) - 1)), d, r.coin()};
      xs.push_back(x);
      total = add(total, x.s);
   }
   bool leg = is_none<S> ? r.coin() : comps(total) != comps(S()) || r.coin();
   // the tensor to expand: with a one dimensional leg of the right charge where asked for
   std::vector<Edge<S>> es;
   auto ns = make_names(rank);
   if (leg) {
      Edge<S> e;
      e.map[total] = 1;
      if constexpr (is_fermi<S>) e.arrow = r.coin();
      es.push_back(e);
      ns.insert(ns.begin(), "old");
   }
   S rest = leg ? total : S();
   for (size_t i = 0; i < rank; i++) {
      auto e = random_edge<S>(r, 2, 3, false);
      if constexpr (!is_none<S>) {
         if (i + 1 == rank) {
            if (!e.map.count(neg(rest))) e.map[neg(rest)] = r(1, 3);
         } else if (!e.map.empty())
            rest = add(rest, e.map.begin()->first);
      }
      es.push_back(e);
   }
   auto t = build<T, S>(ns, es, r);
   if (leg && t.core->edges[0].map.size() != 1) return; // no block carries that charge: not a tensor that can be expanded
   {
      std::vector<DefaultName> o(t.names.begin(), t.names.end());
      r.shuffle(o);
      t = t.transpose(o);
   }
   auto a = read(t);
   g_desc = show(t) + " expand";
   for (auto& x : xs) {
      if constexpr (is_none<S>) conf[DefaultName(x.name)] = EA{x.i, x.d};
      else if constexpr (is_fermi<S>) conf[DefaultName(x.name)] = EA{x.arrow, x.s, x.i, x.d};
      else conf[DefaultName(x.name)] = EA{x.s, x.i, x.d};
      g_desc += " " + x.name + show(x.s) + "#" + std::to_string(x.i) + "/" + std::to_string(x.d);
   }
   // legs of the result come in the order of the configuration
   for (auto& [n, info] : conf) {
      auto x = *std::find_if(xs.begin(), xs.end(), [&](auto& y) { return y.name == std::string(n); });
      h.names.push_back(x.name);
      Edge<S> e;
      e.map[x.s] = x.d;
      if constexpr (is_fermi<S>) e.arrow = x.arrow;
      h.edges.push_back(e);
      pos.push_back({x.s, x.i});
   }
   std::vector<std::pair<std::string, std::string>> pairs;
   if (leg) {
      h.names.push_back("old");
      Edge<S> e;
      e.map[neg(total)] = 1;
      if constexpr (is_fermi<S>) e.arrow = !a.edges[a.index("old")].arrow;
      h.edges.push_back(e);
      pos.push_back({neg(total), 0});
      pairs.push_back({"old", "old"});
   }
   h.v[pos] = T(1);
   auto want = contracted(h, a, pairs);
   auto got = leg ? t.expand(conf, DefaultName("old")) : t.expand(conf);
   auto g = read(got);
   same(g, want, "expand");
   size_t nonzero = 0, expected = 0;
   for (auto& [k, x] : g.v) nonzero += x != T(0);
   for (auto& [k, x] : a.v) expected += x != T(0);
   if (nonzero != expected) report("expand: " + std::to_string(nonzero) + " non-zero elements instead of " + std::to_string(expected));
   // shrinking at the same positions gives the tensor back (leg order: the carrying leg first)
   std::map<DefaultName, typename Tensor<T, S>::EdgePoint> sh;
   for (auto& x : xs) {
      if constexpr (is_none<S>) sh[DefaultName(x.name)] = x.i;
      else sh[DefaultName(x.name)] = {x.s, x.i};
   }
   // after expansion a segment may have lost its block, then there is nothing to take
   for (auto& x : xs)
      if (!got.core->edges[got.name_to_index.at(DefaultName(x.name))].map.count(x.s)) return;
   bool arrow = false;
   if constexpr (is_fermi<S>)
      if (leg) arrow = a.edges[a.index("old")].arrow;
   auto back = read(leg ? got.shrink(sh, DefaultName("old"), arrow) : got.shrink(sh));
   auto names = back.names;
   auto wb = transposed(a, names);
   if constexpr (is_fermi<S>) {
      // up to one sign per combination of charges (the convention of the helper legs)
      for (auto& [k, x] : wb.v) {
         auto f = back.v.find(k);
         T y = f == back.v.end() ? T(0) : f->second;
         if (std::abs(x) != std::abs(y)) report("shrink(expand) differs in size at an element");
      }
   } else
      same(back, wb, "shrink(expand)");
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"shrink<double,none>", shrink_case<double, NoSymmetry>},
               {"expand<double,none>", expand_case<double, NoSymmetry>},
#endif
#if IN(1)
               {"shrink<double,u1>", shrink_case<double, U1Symmetry>},
               {"expand<double,u1>", expand_case<double, U1Symmetry>},
#endif
#if IN(2)
               {"shrink<complex,fermi>", shrink_case<std::complex<double>, FermiSymmetry>},
               {"expand<complex,fermi>", expand_case<std::complex<double>, FermiSymmetry>},
#endif
         });
}
