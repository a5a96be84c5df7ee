// PARTS 2
// fermionic signs: the three sign functions against pair counting, and whole-tensor operations against the reference
#include "ref.hpp"
using namespace ref;

template<typename S>
void functions(Rng& r) {
   size_t n = r(0, 7);
   std::vector<S> s;
   for (size_t i = 0; i < n; i++) s.push_back(random_charge<S>(r, r.coin(4) ? 9 : 2));
   std::ostringstream d;
   d << "charges";
   for (auto& x : s) d << show(x);
   pmr::vector<bool> rev, val;
   for (size_t i = 0; i < n; i++) {
      rev.push_back(r.coin());
      val.push_back(r.coin());
   }
   d << " reversed";
   for (bool b : rev) d << b;
   d << " apply";
   for (bool b : val) d << b;
   g_desc = d.str();
   bool want = false;
   for (size_t i = 0; i < n; i++)
      if (rev[i] && val[i] && odd(s[i])) want = !want;
   if (S::get_reverse_parity(s, rev, val) != want) report("sign of reversing legs is " + std::to_string(!want) + " but the number of odd reversed legs says " + std::to_string(want));
   // permutation
   std::vector<size_t> d2s(n);
   for (size_t i = 0; i < n; i++) d2s[i] = i;
   r.shuffle(d2s);
   pmr::vector<Rank> s2d(n);
   for (size_t i = 0; i < n; i++) s2d[d2s[i]] = i;
   d << " plan";
   for (auto x : s2d) d << " " << x;
   g_desc = d.str();
   want = exchange_parity(s, d2s);
   if (S::get_transpose_parity(s, s2d) != want) report("sign of reordering legs is " + std::to_string(!want) + " but the number of exchanged odd pairs says " + std::to_string(want));
   // groups: contiguous, may be empty
   pmr::vector<Rank> flag(n);
   size_t g = r(1, int(n) + 2);
   std::vector<size_t> cut;
   for (size_t i = 0; i + 1 < g; i++) cut.push_back(r(0, int(n)));
   std::sort(cut.begin(), cut.end());
   pmr::vector<bool> gv;
   for (size_t i = 0; i < g; i++) gv.push_back(r.coin(4) ? false : true);
   want = false;
   for (size_t q = 0, b = 0; q < g; q++) {
      size_t e = q + 1 < g ? cut[q] : n;
      std::vector<S> grp(s.begin() + b, s.begin() + e);
      for (size_t i = b; i < e; i++) flag[i] = q;
      if (gv[q] && pair_parity(grp)) want = !want;
      b = e;
   }
   d << " groups";
   for (auto x : flag) d << " " << x;
   d << " apply";
   for (bool b : gv) d << b;
   g_desc = d.str();
   if (S::get_split_merge_parity(s, flag, gv) != want) report("sign of merging groups is " + std::to_string(!want) + " but the number of odd pairs inside the groups says " + std::to_string(want));
}

template<typename S>
void tensors(Rng& r) {
   auto t = random_tensor<double, S>(r, r(0, 5));
   auto a = read(t);
   g_desc = show(t);
   auto to = a.names;
   r.shuffle(to);
   g_desc += " -> ";
   for (auto& n : to) g_desc += n;
   auto tt = t.transpose(N(to));
   same(read(tt), transposed(a, to), "transpose");
   std::set<std::string> legs, ex;
   for (auto& n : a.names) {
      if (r.coin()) legs.insert(n);
      if (r.coin(3)) ex.insert(n);
   }
   bool apply = r.coin();
   std::set<std::string> sg;
   for (auto& n : legs)
      if (apply != bool(ex.count(n))) sg.insert(n);
   g_desc = show(t) + " reverse";
   for (auto& n : legs) g_desc += " " + n + (sg.count(n) ? "(sign)" : "");
   same(read(t.reverse_edge(NS(legs), apply, NS(ex))), reversed(a, legs, sg), "reverse_edge");
   // merge a consecutive group, with or without sign, then split back
   if (a.rank() >= 1) {
      size_t from = r(0, int(a.rank()) - 1), n = r(1, int(a.rank() - from));
      bool sign = r.coin(), exm = r.coin(3), exr = r.coin(3);
      bool arrow = false, fixed = false;
      std::set<std::string> rv, rvs;
      std::vector<std::string> grp(a.names.begin() + from, a.names.begin() + from + n);
      if constexpr (is_fermi<S>)
         for (size_t i = from; i < from + n; i++) {
            if (!arrow_matters(a.edges[i])) continue;
            if (!fixed) {
               fixed = true;
               arrow = a.edges[i].arrow;
            } else if (a.edges[i].arrow != arrow) {
               rv.insert(a.names[i]);
               if (sign != exr) rvs.insert(a.names[i]);
            }
         }
      auto want = merged(reversed(a, rv, rvs), from, n, "M", (sign != exm) && is_fermi<S>, arrow);
      std::set<std::string> sm, sr;
      if (exm) sm.insert("M");
      if (exr) sr.insert(grp.begin(), grp.end());
      std::vector<DefaultName> gn(grp.begin(), grp.end());
      auto mg = std::pmr::map<DefaultName, std::vector<DefaultName>>{{DefaultName("M"), gn}};
      g_desc = show(t) + " merge";
      for (auto& x : grp) g_desc += " " + x;
      g_desc += sign ? " sign" : " nosign";
      auto m = t.merge_edge(mg, sign, NS(sm), NS(sr));
      same(read(m), want, "merge_edge");
   }
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
         {"sign-functions<fermi>", functions<FermiSymmetry>},
          {"sign-functions<fermi-z2>", functions<FermiZ2Symmetry>},
          {"sign-functions<fermi-u1>", functions<FermiU1Symmetry>},
#endif
#if IN(1)
          {"tensor<fermi>", tensors<FermiSymmetry>},
          {"tensor<fermi-z2>", tensors<FermiZ2Symmetry>},
          {"tensor<fermi-u1>", tensors<FermiU1Symmetry>},
          {"tensor<u1>", tensors<U1Symmetry>},
#endif
         });
}
