// PARTS 6
// renaming, splitting, reversing and merging legs relabels elements
#include "ref.hpp"
using namespace ref;

template<typename S>
using SplitMap = std::map<DefaultName, std::vector<std::tuple<DefaultName, BoseEdge<S>>>>;

template<typename S>
BoseEdge<S> bose(const Edge<S>& e) {
   return BoseEdge<S>{e.map};
}

template<typename S>
void ops(Rng& r) {
   auto t = random_tensor<double, S>(r, r(0, 5), "", 3, 2000);
   auto a = read(t);
   size_t rank = a.rank();
   // rename
   std::map<DefaultName, DefaultName> ren;
   auto want = a;
   std::vector<std::string> fresh = make_names(rank, "x");
   r.shuffle(fresh);
   if (r.coin(3)) fresh = a.names, r.shuffle(fresh); // a permutation of the names
   bool perm = rank && fresh[0].size() == 1;
   for (size_t i = 0; i < rank; i++)
      if (perm || r.coin()) {
         ren[DefaultName(a.names[i])] = DefaultName(fresh[i]);
         want.names[i] = fresh[i];
      }
   ren[DefaultName("absent")] = DefaultName("zzz");
   g_desc = show(t) + " rename to";
   for (auto& n : want.names) g_desc += " " + n;
   same(read(t.edge_rename(ren)), want, "edge_rename");
   same(read(t), a, "operand of edge_rename");
   if (rank >= 2) {
      std::map<DefaultName, DefaultName> bad;
      bad[DefaultName(a.names[0])] = DefaultName(a.names[1]);
      if (!throws([&] { (void)t.edge_rename(bad); })) report("renaming to an existing name was accepted");
   }
   // transpose with bad names
   if (rank >= 1) {
      auto bad = a.names;
      size_t at = r(0, int(rank) - 1);
      bad[at] = "unknown";
      g_desc = show(t) + " transpose with unknown name at " + std::to_string(at);
      if (!throws([&] { (void)t.transpose(N(bad)); })) report("transpose to an unknown name was accepted");
      if (rank >= 2) {
         bad = a.names;
         bad[at] = a.names[(at + 1) % rank];
         if (!throws([&] { (void)t.transpose(N(bad)); })) report("transpose to a duplicated name was accepted");
      }
      bad = a.names;
      bad.pop_back();
      if (!throws([&] { (void)t.transpose(N(bad)); })) report("transpose to fewer names was accepted");
   }
   // reverse twice
   std::set<std::string> legs;
   for (auto& n : a.names)
      if (r.coin()) legs.insert(n);
   g_desc = show(t) + " reverse twice";
   for (auto& n : legs) g_desc += " " + n;
   auto rev1 = t.reverse_edge(NS(legs), true);
   same(read(rev1), reversed(a, legs, legs), "reverse_edge with sign");
   same(read(t.reverse_edge(NS(legs), false)), reversed(a, legs, {}), "reverse_edge without sign");
   same(read(rev1.reverse_edge(NS(legs), true)), a, "reverse_edge twice");
   if (!rank) return;
   // merge any set of legs (in any order), then split back
   std::vector<std::string> order = a.names;
   r.shuffle(order);
   size_t n = r(1, int(rank));
   std::vector<std::string> grp(order.begin(), order.begin() + n);
   // the merged leg sits where the last leg of the group was
   std::vector<std::string> after, before;
   for (auto& x : a.names) {
      bool in = std::find(grp.begin(), grp.end(), x) != grp.end();
      if (in && x != grp.back()) continue;
      after.push_back(in ? "M" : x);
      if (in) before.insert(before.end(), grp.begin(), grp.end());
      else before.push_back(x);
   }
   size_t from = std::find(before.begin(), before.end(), grp[0]) - before.begin();
   auto ta = transposed(a, before);
   bool arrow = false, fixed = false;
   std::set<std::string> rv;
   if constexpr (is_fermi<S>)
      for (auto& x : grp) {
         auto& e = a.edges[a.index(x)];
         if (!arrow_matters(e)) continue;
         if (!fixed) {
            fixed = true;
            arrow = e.arrow;
         } else if (e.arrow != arrow) rv.insert(x);
      }
   bool sign = r.coin();
   auto wm = merged(reversed(ta, rv, sign ? rv : std::set<std::string>()), from, n, "M", sign && is_fermi<S>, arrow);
   g_desc = show(t) + " merge";
   for (auto& x : grp) g_desc += " " + x;
   g_desc += sign ? " sign" : " nosign";
   std::map<DefaultName, std::vector<DefaultName>> mm{{DefaultName("M"), N(grp)}};
   auto m = t.merge_edge(mm, sign);
   auto rm = read(m);
   same(rm, wm, "merge_edge");
   if (magnitudes(rm) != magnitudes(a)) report("merge_edge lost, duplicated or invented an element");
   same(read(t), a, "operand of merge_edge");
   // split back
   SplitMap<S> sp;
   for (auto& x : grp) sp[DefaultName("M")].push_back({DefaultName(x), bose<S>(a.edges[a.index(x)])});
   auto s = m.split_edge(sp, sign);
   auto ws = transposed(a, before);
   // arrows of the group become those of the merged leg; undo the reversal first
   auto back = reversed(ws, rv, sign ? rv : std::set<std::string>());
   if constexpr (is_fermi<S>)
      for (size_t i = from; i < from + n; i++) back.edges[i].arrow = m.core->edges[from].arrow;
   same(read(s), back, "split_edge of merge_edge");
   if (magnitudes(read(s)) != magnitudes(a)) report("split_edge lost, duplicated or invented an element");
   if (n >= 2 && r.coin(4)) {
      auto dup = grp;
      dup[0] = dup[1];
      std::map<DefaultName, std::vector<DefaultName>> bad{{DefaultName("M"), N(dup)}};
      std::vector<std::string> tgt{"M"};
      for (auto& x : a.names)
         if (std::find(grp.begin(), grp.end(), x) == grp.end()) tgt.push_back(x);
      if (!throws([&] { (void)t.edge_operator(std::map<DefaultName, DefaultName>(), SplitMap<S>(), std::set<DefaultName>(), bad, N(tgt)); })) report("merging the same leg twice was accepted");
   }
}

// everything at once: rename, split, reverse, reorder and merge in one edge_operator call
template<typename S>
void all_at_once(Rng& r) {
   size_t rank = r(1, 4);
   auto t0 = random_tensor<double, S>(r, rank + 1, "", 2, 2000);
   auto a0 = read(t0);
   // merge the last two legs first so that there is a leg to split
   bool ar = false, fx = false;
   std::set<std::string> rv0;
   std::vector<std::string> last{a0.names[rank - 1], a0.names[rank]};
   std::map<DefaultName, std::vector<DefaultName>> mm0{{DefaultName("P"), N(last)}};
   auto t = t0.merge_edge(mm0, false);
   auto a = read(t); // legs: ..., P
   (void)ar; (void)fx;
   // 1. rename A -> Z (if there is an A besides P)
   std::map<DefaultName, DefaultName> ren;
   auto cur = a;
   if (rank >= 2 && r.coin()) {
      ren[DefaultName(a.names[0])] = DefaultName("Z");
      cur.names[0] = "Z";
   }
   // 2. split P into last (reference: the inverse of merging)
   std::vector<Edge<S>> ge{a0.edges[rank - 1], a0.edges[rank]};
   auto tab = merge_table<S>(ge);
   bool apply = r.coin();
   bool es = r.coin(), er = r.coin(), em = r.coin();
   SplitMap<S> sp;
   bool do_split = !r.coin(4);
   R<double, S> sd;
   if (do_split) {
      for (int k = 0; k < 2; k++) sp[DefaultName("P")].push_back({DefaultName(last[k]), bose<S>(ge[k])});
      sd.names = cur.names;
      sd.names.pop_back();
      sd.edges = cur.edges;
      auto pe = sd.edges.back();
      sd.edges.pop_back();
      for (int k = 0; k < 2; k++) {
         sd.names.push_back(last[k]);
         auto e = ge[k];
         if constexpr (is_fermi<S>) e.arrow = pe.arrow;
         sd.edges.push_back(e);
      }
      bool sg = is_fermi<S> && (apply != es);
      for (auto& [k, x] : cur.v) {
         auto p = k.back();
         for (auto& [g, so] : tab.at) {
            Size d0 = ge[0].map.at(g[0]), d1 = ge[1].map.at(g[1]);
            if (!(comps(so.first) == comps(p.s)) || p.i < so.second || p.i >= so.second + d0 * d1) continue;
            auto q = std::vector<Pt<S>>(k.begin(), k.end() - 1);
            Size o = p.i - so.second;
            q.push_back({g[0], o / d1});
            q.push_back({g[1], o % d1});
            sd.v[q] = sg && pair_parity(g) ? -x : x;
         }
      }
   } else sd = cur;
   // 3. reverse some legs
   std::set<std::string> legs, ex;
   for (auto& n : sd.names) {
      if (r.coin(3)) legs.insert(n);
   }
   std::set<std::string> sl;
   if (er) ex = legs;
   if (apply != er) sl = legs;
   auto rd = reversed(sd, legs, sl);
   // 4. reorder, 5/6. merge a group
   auto order = rd.names;
   r.shuffle(order);
   size_t n = r(1, int(order.size())), from = r(0, int(order.size() - n));
   bool do_merge = !r.coin(4);
   auto td = transposed(rd, order);
   std::vector<std::string> target = order;
   std::map<DefaultName, std::vector<DefaultName>> mm;
   R<double, S> want = td;
   std::vector<std::string> grp;
   if (do_merge) {
      grp.assign(order.begin() + from, order.begin() + from + n);
      mm[DefaultName("M")] = N(grp);
      target.assign(order.begin(), order.begin() + from);
      target.push_back("M");
      target.insert(target.end(), order.begin() + from + n, order.end());
      bool arrow = false, fixed = false;
      std::set<std::string> rv;
      if constexpr (is_fermi<S>)
         for (auto& x : grp) {
            auto& e = td.edges[td.index(x)];
            if (!arrow_matters(e)) continue;
            if (!fixed) {
               fixed = true;
               arrow = e.arrow;
            } else if (e.arrow != arrow) rv.insert(x);
         }
      want = merged(reversed(td, rv, apply ? rv : std::set<std::string>()), from, n, "M", is_fermi<S> && (apply != em), arrow);
   }
   std::set<DefaultName> e0, e1, e3;
   if (es) e0.insert(DefaultName("P"));
   for (auto& x : ex) e1.insert(DefaultName(x));
   if (em) e3.insert(DefaultName("M"));
   std::set<DefaultName> rl;
   for (auto& x : legs) rl.insert(DefaultName(x));
   g_desc = show(t) + (ren.empty() ? "" : " rename A to Z") + (do_split ? " split P" : "") + " reverse";
   for (auto& x : legs) g_desc += " " + x;
   g_desc += " target";
   for (auto& x : target) g_desc += " " + x;
   if (do_merge) {
      g_desc += " M=";
      for (auto& x : grp) g_desc += x + " ";
   }
   auto u = t.edge_operator(ren, sp, rl, mm, N(target), apply, std::array<std::set<DefaultName>, 4>{{e0, e1, {}, e3}});
   same(read(u), want, "edge_operator");
   same(read(t), a, "operand of edge_operator");
}

template<typename S>
void rebuild(Rng& r) {
   // splitting a leg into edges whose product has a different layout order: several groups, empty groups
   auto t = random_tensor<double, S>(r, r(0, 3), "", 2, 500);
   auto a = read(t);
   g_desc = show(t) + " merge no legs into E";
   std::map<DefaultName, std::vector<DefaultName>> mm{{DefaultName("E"), {}}};
   auto m = t.merge_edge(mm, r.coin());
   auto rm = read(m);
   if (rm.rank() != a.rank() + 1) report("merging no legs did not create one leg");
   if (magnitudes(rm) != magnitudes(a)) report("merging no legs changed the elements");
   size_t at = rm.index("E");
   for (auto& [k, x] : rm.v) {
      auto q = k;
      q.erase(q.begin() + at);
      auto f = a.v.find(q);
      if (f == a.v.end() || f->second != x) report("merging no legs moved an element");
   }
   std::map<DefaultName, std::vector<std::tuple<DefaultName, BoseEdge<S>>>> sp{{DefaultName("E"), {}}};
   same(read(m.split_edge(sp, r.coin())), a, "splitting the empty leg away");
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"ops<none>", ops<NoSymmetry>},
               {"ops<u1>", ops<U1Symmetry>},
#endif
#if IN(1)
               {"ops<fermi>", ops<FermiSymmetry>},
               {"ops<z2>", ops<Z2Symmetry>},
#endif
#if IN(2)
               {"ops<fermi-u1>", ops<FermiU1Symmetry>},
               {"ops<fermi-z2>", ops<FermiZ2Symmetry>},
#endif
#if IN(3)
               {"edge_operator<none>", all_at_once<NoSymmetry>},
               {"edge_operator<u1>", all_at_once<U1Symmetry>},
#endif
#if IN(4)
               {"edge_operator<fermi>", all_at_once<FermiSymmetry>},
               {"edge_operator<fermi-u1>", all_at_once<FermiU1Symmetry>},
#endif
#if IN(5)
               {"empty<none>", rebuild<NoSymmetry>},
               {"empty<u1>", rebuild<U1Symmetry>},
               {"empty<fermi>", rebuild<FermiSymmetry>},
#endif
         });
}
