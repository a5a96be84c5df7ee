// Reference semantics used by the bounded stand-ins and by the replay of failed obligations.
// A tensor is a finite map from named multi-indices (charge, position) to scalars; every operation is the textbook
// definition on that map.  Nothing here calls the kernels under test: tensors are read out of their blocks row-major.
#pragma once
// -DPART=k compiles only the k-th part of a harness (parts are compiled in parallel)
#ifndef PART
#define PART -1
#endif
#define IN(p) (PART < 0 || PART == (p))
#include <TAT/TAT.hpp>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace ref {
   using namespace TAT;

   struct Fail {
      std::string what;
   };
   inline std::string g_desc;     // what the current case does
   inline std::string g_group;
   inline unsigned long g_case = 0;
   inline unsigned long g_evals = 0, g_nontrivial = 0;
   inline std::vector<std::string> g_samples;

   [[noreturn]] inline void report(const std::string& what) {
      std::cout << "FAIL group=" << g_group << " case=" << g_case << " what=" << what << "\n  input: " << g_desc << std::endl;
      std::cout.flush();
      _exit(1);
   }
   inline void on_signal(int s) {
      char b[400];
      int n = snprintf(b, sizeof b, "FAIL group=%s case=%lu what=%s\n  input: ", g_group.c_str(), g_case, s == SIGALRM ? "no answer within the time limit of one case" : "crashed (signal)");
      (void)!write(1, b, n);
      (void)!write(1, g_desc.c_str(), g_desc.size());
      (void)!write(1, "\n", 1);
      _exit(1);
   }

   struct Rng {
      std::mt19937_64 e;
      explicit Rng(uint64_t s) : e(s * 0x9E3779B97F4A7C15ull + 1) {}
      int operator()(int lo, int hi) { // inclusive
         return lo + int(e() % uint64_t(hi - lo + 1));
      }
      bool coin(int n = 2) {
         return e() % n == 0;
      }
      template<typename T>
      void shuffle(std::vector<T>& v) {
         for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[e() % i]);
      }
   };

   template<typename S>
   constexpr bool is_none = std::is_same_v<S, NoSymmetry>;
   template<typename S>
   constexpr bool is_fermi = is_fermi_symmetry_v<S>;

   // ---------------------------------------------------------------- charges, independent arithmetic
   template<typename S>
   struct Q; // charge as plain tuple
   template<typename S>
   std::vector<long> comps(const S& s) {
      if constexpr (std::is_same_v<S, NoSymmetry>) return {};
      else if constexpr (std::is_same_v<S, Z2Symmetry>) return {long(s.z2)};
      else if constexpr (std::is_same_v<S, U1Symmetry>) return {long(s.u1)};
      else if constexpr (std::is_same_v<S, FermiSymmetry>) return {long(s.fermi)};
      else if constexpr (std::is_same_v<S, FermiZ2Symmetry>) return {long(s.fermi), long(s.z2)};
      else return {long(s.fermi), long(s.u1)};
   }
   template<typename S>
   bool zero_sum(const std::vector<S>& v) {
      long f = 0, u = 0, z = 0;
      for (auto& s : v) {
         if constexpr (is_fermi<S>) f += s.fermi;
         if constexpr (std::is_same_v<S, U1Symmetry> || std::is_same_v<S, FermiU1Symmetry>) u += s.u1;
         if constexpr (std::is_same_v<S, Z2Symmetry> || std::is_same_v<S, FermiZ2Symmetry>) z += s.z2;
      }
      return f == 0 && u == 0 && z % 2 == 0;
   }
   template<typename S>
   S neg(const S& s) {
      S r = s;
      if constexpr (is_fermi<S>) r.fermi = -s.fermi;
      if constexpr (std::is_same_v<S, U1Symmetry> || std::is_same_v<S, FermiU1Symmetry>) r.u1 = -s.u1;
      return r;
   }
   template<typename S>
   S add(const S& a, const S& b) {
      S r = a;
      if constexpr (is_fermi<S>) r.fermi = a.fermi + b.fermi;
      if constexpr (std::is_same_v<S, U1Symmetry> || std::is_same_v<S, FermiU1Symmetry>) r.u1 = a.u1 + b.u1;
      if constexpr (std::is_same_v<S, Z2Symmetry> || std::is_same_v<S, FermiZ2Symmetry>) r.z2 = a.z2 != b.z2;
      return r;
   }
   template<typename S>
   bool odd(const S& s) {
      if constexpr (is_fermi<S>) return (s.fermi & 1) != 0;
      else return false;
   }
   template<typename S>
   S random_charge(Rng& r, int w = 2) {
      if constexpr (std::is_same_v<S, NoSymmetry>) return S();
      else if constexpr (std::is_same_v<S, Z2Symmetry>) return S(r.coin());
      else if constexpr (std::is_same_v<S, U1Symmetry>) return S(r(-w, w));
      else if constexpr (std::is_same_v<S, FermiSymmetry>) return S(r(-w, w));
      else if constexpr (std::is_same_v<S, FermiZ2Symmetry>) return S(r(-w, w), r.coin());
      else return S(r(-w, w), r(-w, w));
   }

   template<typename T>
   T rnd_scalar(Rng& r) {
      if constexpr (is_complex_v<T>) return T(r(-9, 9), r(-9, 9));
      else return T(r(-9, 9));
   }

   template<typename S>
   std::string show(const S& s) {
      std::string o = "(";
      bool first = true;
      for (auto c : comps(s)) {
         if (!first) o += ",";
         first = false;
         o += std::to_string(c);
      }
      return o + ")";
   }
   template<typename S>
   std::string show(const Edge<S>& e) {
      std::string o;
      if constexpr (is_fermi<S>) o += e.arrow ? ">" : "<";
      o += "{";
      for (auto& [s, d] : e.map) o += show(s) + ":" + std::to_string(d) + " ";
      return o + "}";
   }
   template<typename T, typename S>
   std::string show(const Tensor<T, S>& t) {
      std::string o = "[";
      for (size_t i = 0; i < t.names.size(); i++) o += std::string(t.names[i]) + show<S>(t.core->edges[i]) + " ";
      return o + "]";
   }

   using Key0 = std::pair<std::vector<long>, Size>; // charge components, position
   template<typename S>
   struct Pt {
      S s;
      Size i;
      bool operator<(const Pt& o) const {
         auto a = comps(s), b = comps(o.s);
         return a != b ? a < b : i < o.i;
      }
      bool operator==(const Pt& o) const {
         return comps(s) == comps(o.s) && i == o.i;
      }
   };

   template<typename T, typename S>
   struct R {
      std::vector<std::string> names;
      std::vector<Edge<S>> edges;
      std::map<std::vector<Pt<S>>, T> v;
      size_t rank() const {
         return names.size();
      }
      size_t index(const std::string& n) const {
         for (size_t i = 0; i < names.size(); i++)
            if (names[i] == n) return i;
         report("reference: no leg " + n);
      }
   };

   // read a tensor out of its blocks (row-major), checking that its storage is well formed
   template<typename T, typename S>
   R<T, S> read(const Tensor<T, S>& t) {
      R<T, S> r;
      for (auto& n : t.names) r.names.push_back(std::string(n));
      r.edges = t.core->edges;
      if (r.names.size() != r.edges.size()) report("result has " + std::to_string(r.names.size()) + " names but " + std::to_string(r.edges.size()) + " edges");
      if (t.name_to_index.size() != r.names.size()) report("name index of the result does not have one entry per leg");
      for (size_t i = 0; i < t.names.size(); i++)
         if (t.name_to_index.at(t.names[i]) != i) report("name index of the result is wrong for leg " + r.names[i]);
      for (auto& [syms, block] : t.core->blocks) {
         if constexpr (!is_none<S>)
            if (syms.size() != r.names.size()) report("block key has wrong length");
         std::vector<Size> dim;
         Size total = 1;
         for (size_t i = 0; i < r.edges.size(); i++) {
            S s = is_none<S> ? S() : syms[i];
            auto f = r.edges[i].map.find(s);
            if (f == r.edges[i].map.end()) report("block uses a charge that is not on its edge");
            dim.push_back(f->second);
            total *= f->second;
         }
         if (block.size() != total) report("block size " + std::to_string(block.size()) + " is not the product of its dimensions " + std::to_string(total));
         std::vector<Size> idx(dim.size(), 0);
         for (Size o = 0; o < total; o++) {
            std::vector<Pt<S>> k;
            Size rest = o;
            for (size_t i = dim.size(); i-- > 0;) {
               idx[i] = rest % dim[i];
               rest /= dim[i];
            }
            for (size_t i = 0; i < dim.size(); i++) k.push_back({is_none<S> ? S() : syms[i], idx[i]});
            r.v[k] = block[o];
         }
      }
      return r;
   }

   template<typename S>
   Edge<S> random_edge(Rng& r, int maxseg, int maxdim, bool zero_ok = true, int w = 1) {
      Edge<S> e;
      if constexpr (is_none<S>) {
         e = Edge<S>(Size(r.coin(12) && zero_ok ? 0 : r(1, maxdim)));
      } else {
         int n = r.coin(25) && zero_ok ? 0 : r(1, maxseg);
         for (int i = 0; i < n; i++) e.map[random_charge<S>(r, w)] = r.coin(15) && zero_ok ? 0 : r(1, maxdim);
         if constexpr (is_fermi<S>) e.arrow = r.coin();
      }
      return e;
   }
   inline std::vector<std::string> make_names(size_t n, const std::string& p = "") {
      std::vector<std::string> v;
      for (size_t i = 0; i < n; i++) v.push_back(p + std::string(1, char('A' + i)));
      return v;
   }
   template<typename T, typename S>
   Tensor<T, S> build(const std::vector<std::string>& names, const std::vector<Edge<S>>& edges, Rng& r) {
      std::vector<DefaultName> nn(names.begin(), names.end());
      auto t = Tensor<T, S>(nn, edges);
      for (auto& [k, b] : t.core->blocks)
         for (auto& x : b) x = rnd_scalar<T>(r);
      return t;
   }
   // a tensor that has at least one block most of the time
   template<typename T, typename S>
   Tensor<T, S> random_tensor(Rng& r, size_t rank, const std::string& prefix = "", int maxdim = 3, Size maxsize = 4000) {
      std::vector<Edge<S>> es;
      int maxseg = rank <= 2 ? 3 : rank <= 4 ? 2 : 2;
      if (rank > 4) maxdim = 2;
      for (size_t i = 0; i < rank; i++) es.push_back(random_edge<S>(r, maxseg, maxdim, r.coin(4)));
      if constexpr (!is_none<S>) {
         // make charges able to cancel: put one combination of charges with zero sum on the edges
         if (rank >= 1 && !r.coin(12)) {
            S rest = S();
            std::vector<S> pick;
            for (size_t i = 0; i + 1 < rank; i++) {
               S s = es[i].map.empty() ? random_charge<S>(r, 1) : std::next(es[i].map.begin(), r(0, int(es[i].map.size()) - 1))->first;
               pick.push_back(s);
               rest = add(rest, s);
            }
            pick.push_back(neg(rest));
            for (size_t i = 0; i < rank; i++)
               if (!es[i].map.count(pick[i])) es[i].map[pick[i]] = r(1, maxdim);
            for (size_t i = 0; i < rank; i++)
               if (r.coin(4)) es[i].map[S()] = r(1, maxdim);
         }
      }
      return build<T, S>(make_names(rank, prefix), es, r);
   }

   template<typename T>
   bool close(const T& a, const T& b, double tol) {
      if (a == b) return true;
      return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
   }

   template<typename S>
   bool arrow_matters(const Edge<S>& e) {
      if constexpr (is_fermi<S>) {
         for (auto& [s, d] : e.map)
            if (s.fermi != 0) return true;
      }
      return false;
   }

   // compare two reference tensors; edges compared by the segments that carry elements, absent elements count as zero
   inline std::map<std::string, unsigned long> g_known; // deviations that match a recorded finding exactly
   template<typename T, typename S>
   std::string difference(const R<T, S>& got, const R<T, S>& want, const std::string& op, double tol = 0) {
      if (got.names != want.names) {
         std::string a, b;
         for (auto& x : got.names) a += x + " ";
         for (auto& x : want.names) b += x + " ";
         return (op + ": legs are [" + a + "] but should be [" + b + "]");
      }
      for (size_t i = 0; i < got.names.size(); i++) {
         if constexpr (is_fermi<S>)
            if ((arrow_matters(want.edges[i])) && got.edges[i].arrow != want.edges[i].arrow) return (op + ": wrong arrow on leg " + got.names[i]);
         for (auto& [s, d] : got.edges[i].map) {
            auto f = want.edges[i].map.find(s);
            if (f == want.edges[i].map.end() || f->second != d) return (op + ": leg " + got.names[i] + " has segment " + show(s) + ":" + std::to_string(d) + " which it should not have");
         }
      }
      auto key = [](const std::vector<Pt<S>>& k) {
         std::string o;
         for (auto& p : k) o += show(p.s) + "#" + std::to_string(p.i) + " ";
         return o;
      };
      auto str = [](const T& x) {
         std::ostringstream o;
         o.precision(17);
         o << x;
         return o.str();
      };
      for (auto& [k, x] : want.v) {
         auto f = got.v.find(k);
         T y = f == got.v.end() ? T(0) : f->second;
         if (f == got.v.end() && x != T(0)) return (op + ": element at " + key(k) + "is missing, should be " + str(x));
         if (!close(x, y, tol)) return (op + ": element at " + key(k) + "is " + str(y) + " but should be " + str(x));
      }
      for (auto& [k, x] : got.v)
         if (!want.v.count(k) && x != T(0)) return (op + ": element at " + key(k) + "is " + str(x) + " but should not exist");
      return "";
   }
   template<typename T, typename S>
   void same(const R<T, S>& got, const R<T, S>& want, const std::string& op, double tol = 0) {
      auto d = difference(got, want, op, tol);
      if (!d.empty()) report(d);
   }
   // the result is right, or is exactly what the recorded finding `id` produces on this input
   template<typename T, typename S>
   void same_or_known(const R<T, S>& got, const R<T, S>& want, const std::vector<R<T, S>>& alternatives, const std::string& id, const std::string& op, double tol = 0) {
      auto d = difference(got, want, op, tol);
      if (d.empty()) return;
      for (auto& a : alternatives)
         if (difference(got, a, op, tol).empty()) {
            g_known[id]++;
            return;
         }
      report(d);
   }

   // ---------------------------------------------------------------- signs (pair counting)
   template<typename S>
   bool exchange_parity(const std::vector<S>& src, const std::vector<size_t>& dst_to_src) {
      bool p = false;
      for (size_t a = 0; a < dst_to_src.size(); a++)
         for (size_t b = a + 1; b < dst_to_src.size(); b++)
            if (dst_to_src[a] > dst_to_src[b] && odd(src[dst_to_src[a]]) && odd(src[dst_to_src[b]])) p = !p;
      return p;
   }
   template<typename S>
   bool pair_parity(const std::vector<S>& v) {
      bool p = false;
      for (size_t a = 0; a < v.size(); a++)
         for (size_t b = a + 1; b < v.size(); b++)
            if (odd(v[a]) && odd(v[b])) p = !p;
      return p;
   }
   template<typename S>
   std::vector<S> charges(const std::vector<Pt<S>>& k) {
      std::vector<S> v;
      for (auto& p : k) v.push_back(p.s);
      return v;
   }

   template<typename T, typename S>
   R<T, S> transposed(const R<T, S>& a, const std::vector<std::string>& to, bool sign = true) {
      R<T, S> r;
      r.names = to;
      std::vector<size_t> m;
      for (auto& n : to) {
         m.push_back(a.index(n));
         r.edges.push_back(a.edges[m.back()]);
      }
      for (auto& [k, x] : a.v) {
         std::vector<Pt<S>> q;
         for (auto i : m) q.push_back(k[i]);
         r.v[q] = sign && exchange_parity(charges(k), m) ? -x : x;
      }
      return r;
   }
   template<typename T, typename S>
   R<T, S> reversed(const R<T, S>& a, const std::set<std::string>& legs, const std::set<std::string>& signed_legs) {
      R<T, S> r = a;
      if constexpr (is_fermi<S>) {
         for (size_t i = 0; i < r.rank(); i++)
            if (legs.count(r.names[i])) r.edges[i].arrow = !r.edges[i].arrow;
         for (auto& [k, x] : r.v)
            for (size_t i = 0; i < r.rank(); i++)
               if (legs.count(r.names[i]) && signed_legs.count(r.names[i]) && odd(k[i].s)) x = -x;
      }
      return r;
   }
   // table of a merged leg: tuples of segments in lexicographic order -> (charge, offset)
   template<typename S>
   struct MergeTable {
      std::map<std::vector<S>, std::pair<S, Size>> at;
      Edge<S> edge;
   };
   template<typename S>
   MergeTable<S> merge_table(const std::vector<Edge<S>>& es) {
      MergeTable<S> m;
      std::function<void(size_t, std::vector<S>, S, Size)> go = [&](size_t i, std::vector<S> k, S s, Size d) {
         if (i == es.size()) {
            auto& off = m.edge.map[s];
            m.at[k] = {s, off};
            off += d;
            return;
         }
         for (auto& [c, n] : es[i].map) {
            auto k2 = k;
            k2.push_back(c);
            go(i + 1, k2, add(s, c), d * n);
         }
      };
      go(0, {}, S(), 1);
      return m;
   }
   // merge consecutive legs [from, from+n) of a into one leg
   template<typename T, typename S>
   R<T, S> merged(const R<T, S>& a, size_t from, size_t n, const std::string& name, bool sign, bool arrow) {
      R<T, S> r;
      std::vector<Edge<S>> group(a.edges.begin() + from, a.edges.begin() + from + n);
      auto tab = merge_table<S>(group);
      for (size_t i = 0; i < a.rank(); i++) {
         if (i == from) {
            r.names.push_back(name);
            Edge<S> e = n == 1 ? group[0] : tab.edge;
            if constexpr (is_fermi<S>) e.arrow = arrow;
            r.edges.push_back(e);
         }
         if (i >= from && i < from + n) continue;
         r.names.push_back(a.names[i]);
         r.edges.push_back(a.edges[i]);
      }
      if (n == 0 && from == a.rank()) {
         r.names.push_back(name);
         r.edges.push_back(tab.edge);
      }
      for (auto& [k, x] : a.v) {
         std::vector<S> g;
         Size off = 0;
         for (size_t i = from; i < from + n; i++) {
            g.push_back(k[i].s);
            off = off * group[i - from].map.at(k[i].s) + k[i].i;
         }
         Pt<S> p;
         auto& e = tab.at.at(g);
         p.s = e.first;
         p.i = e.second + off;
         std::vector<Pt<S>> q(k.begin(), k.begin() + from);
         q.push_back(p);
         q.insert(q.end(), k.begin() + from + n, k.end());
         r.v[q] = sign && pair_parity(g) ? -x : x;
      }
      return r;
   }
   // contraction by brute force
   template<typename T, typename S>
   R<T, S> contracted(const R<T, S>& a, const R<T, S>& b, const std::vector<std::pair<std::string, std::string>>& pairs, bool by_offset = false) {
      // fused legs (no symmetry): same free name on both sides
      std::vector<std::string> c1, c2, f1, f2, fuse;
      for (auto& [x, y] : pairs) {
         c1.push_back(x);
         c2.push_back(y);
      }
      auto has = [](const std::vector<std::string>& v, const std::string& n) {
         return std::find(v.begin(), v.end(), n) != v.end();
      };
      for (auto& n : a.names)
         if (!has(c1, n)) {
            if (is_none<S> && has(b.names, n) && !has(c2, n)) fuse.push_back(n);
            else f1.push_back(n);
         }
      for (auto& n : b.names)
         if (!has(c2, n) && !has(fuse, n)) f2.push_back(n);
      std::vector<DefaultName> fl(fuse.begin(), fuse.end());
      std::sort(fl.begin(), fl.end());
      fuse.clear();
      for (auto& n : fl) fuse.push_back(std::string(n));
      auto o1 = fuse;
      o1.insert(o1.end(), f1.begin(), f1.end());
      o1.insert(o1.end(), c1.begin(), c1.end());
      auto o2 = fuse;
      o2.insert(o2.end(), c2.begin(), c2.end());
      o2.insert(o2.end(), f2.begin(), f2.end());
      std::set<std::string> rev;
      if constexpr (is_fermi<S>)
         for (auto& n : c1)
            if (!a.edges[a.index(n)].arrow) rev.insert(n);
      auto A = reversed(transposed(a, o1), rev, rev);
      auto B = transposed(b, o2);
      R<T, S> r;
      size_t nf = fuse.size(), n1 = f1.size(), nc = c1.size(), n2 = f2.size();
      r.names = fuse;
      r.names.insert(r.names.end(), f1.begin(), f1.end());
      r.names.insert(r.names.end(), f2.begin(), f2.end());
      for (size_t i = 0; i < nf + n1; i++) r.edges.push_back(A.edges[i]);
      for (size_t i = 0; i < n2; i++) r.edges.push_back(B.edges[nf + nc + i]);
      // recorded finding: the common legs are paired through their position in the merged leg
      std::vector<Edge<S>> m1, m2;
      for (size_t i = 0; i < nc; i++) {
         Edge<S> x, y;
         for (auto& [c, d] : A.edges[nf + n1 + i].map)
            if (B.edges[nf + i].map.count(neg(c))) x.map[c] = d, y.map[neg(c)] = d;
         m1.push_back(x);
         m2.push_back(y);
      }
      auto tab1 = merge_table<S>(m1), tab2 = merge_table<S>(m2);
      auto collapse = [&](std::vector<Pt<S>>& h, const MergeTable<S>& tab, const std::vector<Edge<S>>& es, bool negate) {
         std::vector<S> g;
         Size off = 0;
         for (size_t i = 0; i < nc; i++) {
            if (!es[i].map.count(h[nf + i].s)) return false;
            g.push_back(h[nf + i].s);
            off = off * es[i].map.at(h[nf + i].s) + h[nf + i].i;
         }
         auto& e = tab.at.at(g);
         Pt<S> p{negate ? neg(e.first) : e.first, e.second + off};
         h.resize(nf);
         h.push_back(p);
         return true;
      };
      // index B by (fuse, common)
      std::map<std::vector<Pt<S>>, std::vector<std::pair<std::vector<Pt<S>>, T>>> by;
      for (auto& [k, x] : B.v) {
         std::vector<Pt<S>> h(k.begin(), k.begin() + nf + nc);
         if (by_offset) {
            if (!collapse(h, tab2, m2, true)) continue;
         } else
            for (size_t i = nf; i < nf + nc; i++) h[i].s = neg(h[i].s);
         by[h].push_back({std::vector<Pt<S>>(k.begin() + nf + nc, k.end()), x});
      }
      for (auto& [k, x] : A.v) {
         std::vector<Pt<S>> h(k.begin(), k.begin() + nf);
         h.insert(h.end(), k.begin() + nf + n1, k.end());
         std::vector<S> cs;
         for (size_t i = nf; i < nf + nc; i++) cs.push_back(h[i].s);
         if (by_offset && !collapse(h, tab1, m1, false)) continue;
         auto f = by.find(h);
         if (f == by.end()) continue;
         bool s = pair_parity(cs);
         for (auto& [g, y] : f->second) {
            std::vector<Pt<S>> q(k.begin(), k.begin() + nf + n1);
            q.insert(q.end(), g.begin(), g.end());
            r.v[q] += s ? -(x * y) : x * y;
         }
      }
      return r;
   }
   template<typename T, typename S>
   R<T, S> traced(const R<T, S>& a, const std::vector<std::pair<std::string, std::string>>& pairs, bool by_offset = false) {
      std::vector<std::string> t1, t2, fr;
      std::set<std::string> used;
      for (auto [x, y] : pairs) {
         bool swap = false;
         if constexpr (is_fermi<S>) swap = !a.edges[a.index(x)].arrow;
         if (swap) std::swap(x, y);
         t1.push_back(x);
         t2.push_back(y);
         used.insert(x);
         used.insert(y);
      }
      for (auto& n : a.names)
         if (!used.count(n)) fr.push_back(n);
      auto o = t1;
      o.insert(o.end(), t2.begin(), t2.end());
      o.insert(o.end(), fr.begin(), fr.end());
      auto A = transposed(a, o);
      R<T, S> r;
      r.names = fr;
      size_t n = t1.size();
      for (size_t i = 0; i < fr.size(); i++) r.edges.push_back(A.edges[2 * n + i]);
      std::vector<Edge<S>> m1(A.edges.begin(), A.edges.begin() + n), m2(A.edges.begin() + n, A.edges.begin() + 2 * n);
      auto tab1 = merge_table<S>(m1), tab2 = merge_table<S>(m2);
      for (auto& [k, x] : A.v) {
         bool diag = true;
         std::vector<S> g;
         for (size_t i = 0; i < n; i++) {
            g.push_back(k[i].s);
            Pt<S> m{neg(k[n + i].s), k[n + i].i};
            if (!(m == k[i])) diag = false;
         }
         if (by_offset) {
            // recorded finding: the two groups are paired through their positions in the merged legs
            auto at = [&](const MergeTable<S>& tab, const std::vector<Edge<S>>& es, size_t from) {
               std::vector<S> q;
               Size off = 0;
               for (size_t i = 0; i < n; i++) {
                  q.push_back(k[from + i].s);
                  off = off * es[i].map.at(k[from + i].s) + k[from + i].i;
               }
               auto& e = tab.at.at(q);
               return Pt<S>{e.first, e.second + off};
            };
            auto x1 = at(tab1, m1, 0), x2 = at(tab2, m2, n);
            diag = x1 == Pt<S>{neg(x2.s), x2.i};
         }
         if (!diag) continue;
         r.v[std::vector<Pt<S>>(k.begin() + 2 * n, k.end())] += pair_parity(g) ? -x : x;
      }
      return r;
   }

   template<typename T, typename S>
   std::multiset<double> magnitudes(const R<T, S>& a) {
      std::multiset<double> m;
      for (auto& [k, x] : a.v)
         if (x != T(0)) m.insert(std::abs(x));
      return m;
   }

   inline std::vector<DefaultName> N(const std::vector<std::string>& v) {
      return {v.begin(), v.end()};
   }
   inline std::pmr::set<DefaultName> NS(const std::set<std::string>& v) {
      std::pmr::set<DefaultName> r;
      for (auto& x : v) r.insert(DefaultName(x));
      return r;
   }

   // does f throw?  (library errors are exceptions)
   template<typename F>
   bool throws(F&& f) {
      try {
         f();
      } catch (const std::exception&) {
         return true;
      }
      return false;
   }

   using Group = std::pair<std::string, std::function<void(Rng&)>>;
   // main driver:  prog SEED COUNT [GROUP CASE]
   inline int drive(int argc, char** argv, const std::vector<Group>& groups, double seconds_default = 60) {
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
      uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
      unsigned long count = argc > 2 ? strtoul(argv[2], nullptr, 10) : 200;
      std::string only = argc > 3 ? argv[3] : "";
      long one = argc > 4 ? atol(argv[4]) : -1;
      double limit = getenv("TATV_SECONDS") ? atof(getenv("TATV_SECONDS")) : 1e9;
      auto t0 = time(nullptr);
      std::set<std::string> distinct;
      for (unsigned long c = 0; c < count; c++) {
         if (time(nullptr) - t0 > limit) break;
         for (auto& [name, f] : groups) {
            if (!only.empty() && only != name) continue;
            if (one >= 0 && long(c) != one) continue;
            g_group = name;
            g_case = c;
            g_desc = "";
            Rng r(seed * 1000003 + c * 101 + std::hash<std::string>()(name) % 9973);
            alarm(120);
            try {
               f(r);
            } catch (const Fail& e) {
               report(e.what);
            } catch (const std::exception& e) {
               report(std::string("unexpected exception: ") + e.what());
            }
            alarm(0);
            g_evals++;
            if (!g_desc.empty() && distinct.insert(name + g_desc).second) g_nontrivial++;
            if (g_samples.size() < 6 && c % 7 == 3 && !g_desc.empty()) g_samples.push_back(name + ": " + g_desc.substr(0, 300));
         }
      }
      std::cout << "EVALS " << g_evals << " DISTINCT " << distinct.size() << "\n";
      for (auto& [id, n] : g_known) std::cout << "KNOWN " << id << " " << n << "\n";
      for (auto& s : g_samples) std::cout << "SAMPLE " << s << "\n";
      std::cout << "OK" << std::endl;
      return 0;
   }
} // namespace ref
