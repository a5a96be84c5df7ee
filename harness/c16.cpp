// PARTS 5
// SVD, QR, multiplication by singular values
#include "ref.hpp"
using namespace ref;

template<typename T>
T cj(const T& x) {
   if constexpr (is_complex_v<T>) return std::conj(x);
   else return x;
}

template<typename T, typename S>
void randomize(Rng& r, Tensor<T, S>& t) {
   int mode = r(0, 9);
   for (auto& [k, b] : t.core->blocks)
      for (auto& x : b) {
         if constexpr (is_complex_v<T>) x = T(r(-1000, 1000) / 500., r(-1000, 1000) / 500.);
         else x = T(r(-1000, 1000) / 500.);
         if (mode == 0) x = T(0);
         if (mode == 1) x = T(1);
         if (mode == 2 && r.coin()) x = T(0);
      }
}

// sum over the other legs of conj(x[.., c]) x[.., c'] is delta
template<typename T, typename S>
void isometry(const R<T, S>& a, const std::string& leg, double tol, const std::string& what) {
   size_t p = a.index(leg);
   std::map<std::vector<Pt<S>>, std::vector<std::pair<Pt<S>, T>>> rows;
   std::set<Pt<S>> cols;
   for (auto& [k, x] : a.v) {
      auto q = k;
      q.erase(q.begin() + p);
      rows[q].push_back({k[p], x});
      cols.insert(k[p]);
   }
   std::map<std::pair<Pt<S>, Pt<S>>, T> g;
   for (auto& [q, v] : rows)
      for (auto& [c, x] : v)
         for (auto& [d, y] : v) g[{c, d}] += cj(x) * y;
   for (auto& c : cols)
      for (auto& d : cols) {
         T want = c == d ? T(1) : T(0);
         T got = g.count({c, d}) ? g[{c, d}] : T(0);
         if (std::abs(got - want) > tol) report(what + " is not an isometry on its common leg: overlap " + std::to_string(std::abs(got)) + " instead of " + std::to_string(std::abs(want)));
      }
}
template<typename S>
size_t segment_total(const Edge<S>& e) {
   size_t n = 0;
   for (auto& [s, d] : e.map) n += d;
   return n;
}

template<typename T, typename S>
void svd_case(Rng& r) {
   double tol = std::is_same_v<real_base_t<T>, float> ? 2e-4 : 1e-9;
   size_t rank = r(0, 4);
   auto t = random_tensor<T, S>(r, rank);
   randomize<T, S>(r, t);
   auto a = read(t);
   std::set<DefaultName> us;
   std::vector<std::string> un, vn;
   g_desc = show(t) + " svd u={";
   for (auto& n : a.names)
      if (r.coin()) {
         us.insert(DefaultName(n));
         un.push_back(n);
         g_desc += n;
      } else
         vn.push_back(n);
   g_desc += "}";
   auto o = t.svd(us, DefaultName("cu"), DefaultName("cv"));
   same(read(t), a, "operand of svd");
   auto U = read(o.U), V = read(o.V);
   auto expect_u = un, expect_v = vn;
   expect_u.push_back("cu");
   expect_v.insert(expect_v.begin(), "cv");
   if (U.names != expect_u) report("legs of U");
   if (V.names != expect_v) report("legs of V");
   std::vector<double> all;
   for (auto& [s, v] : o.S.value) {
      double last = std::numeric_limits<double>::infinity();
      for (auto x : v) {
         if (!(x >= 0)) report("negative singular value");
         if (x > last) report("singular values of a block not in decreasing order");
         last = x;
         all.push_back(x);
      }
   }
   isometry(U, "cu", tol * 10, "U");
   isometry(V, "cv", tol * 10, "V");
   // every singular value belongs to one index of each common leg
   auto shape = [&](const R<T, S>& X, const std::string& leg, bool negate, const auto& sv, const std::string& what) {
      std::map<std::vector<long>, size_t> want, got;
      for (auto& [s, v] : sv.value)
         if (v.size()) want[comps(negate ? neg(s) : s)] = v.size();
      for (auto& [s, d] : X.edges[X.index(leg)].map)
         if (d) got[comps(s)] = d;
      if (want != got) report(what + ": the common leg does not match the singular values");
   };
   shape(U, "cu", false, o.S, "U");
   shape(V, "cv", true, o.S, "V");
   auto join = [&](const auto& x) {
      auto u = read(x.U);
      size_t p = u.index("cu");
      for (auto& [k, y] : u.v) y *= T(x.S.value.at(k[p].s).at(k[p].i));
      return contracted(u, read(x.V), {{"cu", "cv"}});
   };
   auto target = un;
   target.insert(target.end(), vn.begin(), vn.end());
   auto A = transposed(a, target);
   double scale = 1;
   for (auto& [k, x] : a.v) scale += std::abs(x) * std::abs(x);
   auto J = join(o);
   same(J, A, "U*S*V", tol * std::sqrt(scale));
   // multiple
   auto us1 = o.U.multiple(o.S, DefaultName("cu"), 'u');
   same(read(us1.contract(o.V, std::set<std::tuple<DefaultName, DefaultName>>{{DefaultName("cu"), DefaultName("cv")}})), A, "multiple(U,S)*V", tol * std::sqrt(scale));
   auto vs1 = o.V.multiple(o.S, DefaultName("cv"), 'v');
   same(read(o.U.contract(vs1, std::set<std::tuple<DefaultName, DefaultName>>{{DefaultName("cu"), DefaultName("cv")}})), A, "U*multiple(V,S)", tol * std::sqrt(scale));
   // truncation
   std::sort(all.rbegin(), all.rend());
   Size cut = r.coin(8) ? 0 : r(0, int(all.size()) + 2);
   g_desc += " cut=" + std::to_string(cut);
   auto c = t.svd(us, DefaultName("cu"), DefaultName("cv"), cut);
   std::vector<double> kept;
   for (auto& [s, v] : c.S.value)
      for (auto x : v) kept.push_back(x);
   if (kept.size() != std::min<size_t>(cut, all.size())) report("truncation keeps " + std::to_string(kept.size()) + " of " + std::to_string(all.size()) + " singular values");
   std::sort(kept.rbegin(), kept.rend());
   double lost = 0;
   for (size_t i = 0; i < all.size(); i++) {
      if (i < kept.size()) {
         if (std::abs(kept[i] - all[i]) > tol * (1 + all[0])) report("truncation does not keep the largest singular values");
      } else
         lost += all[i] * all[i];
   }
   auto cu = read(c.U), cv = read(c.V);
   isometry(cu, "cu", tol * 10, "truncated U");
   isometry(cv, "cv", tol * 10, "truncated V");
   shape(cu, "cu", false, c.S, "truncated U");
   shape(cv, "cv", true, c.S, "truncated V");
   auto D = join(c);
   double err = 0;
   for (auto& [k, x] : A.v) {
      auto f = D.v.find(k);
      T y = f == D.v.end() ? T(0) : f->second;
      err += std::norm(x - y);
   }
   if (std::abs(std::sqrt(err) - std::sqrt(lost)) > std::sqrt(tol) * scale) report("truncation error is " + std::to_string(std::sqrt(err)) + " instead of " + std::to_string(std::sqrt(lost)));
}

template<typename T, typename S>
void qr_case(Rng& r) {
   double tol = std::is_same_v<real_base_t<T>, float> ? 2e-4 : 1e-9;
   size_t rank = r(0, 4);
   auto t = random_tensor<T, S>(r, rank);
   randomize<T, S>(r, t);
   auto a = read(t);
   std::set<DefaultName> set;
   bool dir_q = r.coin();
   std::vector<std::string> qn, rn;
   g_desc = show(t) + " qr " + (dir_q ? "q={" : "r={");
   for (auto& n : a.names) {
      bool in = r.coin();
      if (in) {
         set.insert(DefaultName(n));
         g_desc += n;
      }
      (in == dir_q ? qn : rn).push_back(n);
   }
   g_desc += "}";
   auto o = t.qr(r.coin() ? (dir_q ? 'q' : 'r') : (dir_q ? 'Q' : 'R'), set, DefaultName("cq"), DefaultName("cr"));
   same(read(t), a, "operand of qr");
   auto Q = read(o.Q), R_ = read(o.R);
   auto strip = [](std::vector<std::string> v, const std::string& x) {
      auto f = std::find(v.begin(), v.end(), x);
      if (f == v.end()) report("common leg missing");
      v.erase(f);
      return v;
   };
   if (strip(Q.names, "cq") != qn) report("legs of Q");
   if (strip(R_.names, "cr") != rn) report("legs of R");
   isometry(Q, "cq", tol * 10, "Q");
   // product: whichever factor holds the arrow
   double scale = 1;
   for (auto& [k, x] : a.v) scale += std::norm(x);
   auto P = contracted(Q, R_, {{"cq", "cr"}});
   auto target = qn;
   target.insert(target.end(), rn.begin(), rn.end());
   same(P, transposed(a, target), "Q*R", tol * std::sqrt(scale));
   // the common leg is no longer than it has to be
   for (auto& [s, d] : Q.edges[Q.index("cq")].map) {
      auto f = R_.edges[R_.index("cr")].map.find(neg(s));
      if (f == R_.edges[R_.index("cr")].map.end() || f->second != d) report("common legs of Q and R differ");
   }
   // triangular: the position along the merged legs of R is never before the common index
   {
      std::vector<Edge<S>> es;
      for (auto& n : rn) es.push_back(a.edges[a.index(n)]);
      auto tab = merge_table<S>(es);
      auto X = transposed(R_, [&] {
         auto v = rn;
         v.insert(v.begin(), "cr");
         return v;
      }());
      for (auto& [k, x] : X.v) {
         std::vector<S> g;
         Size off = 0;
         for (size_t i = 0; i < rn.size(); i++) {
            g.push_back(k[i + 1].s);
            off = off * es[i].map.at(k[i + 1].s) + k[i + 1].i;
         }
         off += tab.at.at(g).second;
         if (off < k[0].i && std::abs(x) > tol * std::sqrt(scale)) report("R is not triangular");
      }
   }
}

template<typename T, typename S>
void multiple_case(Rng& r) {
   size_t rank = r(1, 4);
   auto t = random_tensor<T, S>(r, rank, "", 3);
   if (r.coin(4) && is_none<S>) { // larger trailing dimension
      std::vector<Edge<S>> es = t.core->edges;
      es.back() = Edge<S>(Size(r(14, 20)));
      t = build<T, S>(make_names(rank), es, r);
   }
   auto a = read(t);
   size_t leg = r(0, int(rank) - 1);
   char d = "uUvV"[r(0, 3)];
   bool v = d == 'v' || d == 'V', division = r.coin();
   typename Tensor<T, S>::SingularType sv;
   for (auto& [s, n] : a.edges[leg].map) {
      auto& x = sv.value[v ? neg(s) : s];
      for (Size i = 0; i < n; i++) x.push_back(real_base_t<T>(1 << r(0, 4)));
   }
   g_desc = show(t) + " multiple leg " + a.names[leg] + " " + d + (division ? " division" : "");
   auto got = read(t.multiple(sv, DefaultName(a.names[leg]), d, division));
   auto want = a;
   for (auto& [k, x] : want.v) {
      auto f = sv.value.at(v ? neg(k[leg].s) : k[leg].s).at(k[leg].i);
      x = division ? x / T(f) : x * T(f);
   }
   same(got, want, "multiple");
   same(read(t), a, "operand of multiple");
   if (r.coin(3) && !a.v.empty()) {
      for (auto& [s, x] : sv.value) x.push_back(1);
      if (!throws([&] { (void)t.multiple(sv, DefaultName(a.names[leg]), d, division); })) report("singular values of the wrong length are accepted");
   }
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"svd<double,none>", svd_case<double, NoSymmetry>},
               {"qr<double,none>", qr_case<double, NoSymmetry>},
               {"multiple<double,none>", multiple_case<double, NoSymmetry>},
#endif
#if IN(1)
               {"svd<complex,u1>", svd_case<std::complex<double>, U1Symmetry>},
               {"qr<complex,u1>", qr_case<std::complex<double>, U1Symmetry>},
               {"multiple<double,u1>", multiple_case<double, U1Symmetry>},
#endif
#if IN(2)
               {"svd<double,fermi>", svd_case<double, FermiSymmetry>},
               {"qr<double,fermi>", qr_case<double, FermiSymmetry>},
               {"multiple<complex,fermi>", multiple_case<std::complex<double>, FermiSymmetry>},
#endif
#if IN(3)
               {"svd<float,z2>", svd_case<float, Z2Symmetry>},
               {"qr<complex-float,none>", qr_case<std::complex<float>, NoSymmetry>},
               {"svd<complex-float,none>", svd_case<std::complex<float>, NoSymmetry>},
#endif
#if IN(4)
               {"svd<complex,fermi-u1>", svd_case<std::complex<double>, FermiU1Symmetry>},
               {"qr<float,fermi-z2>", qr_case<float, FermiZ2Symmetry>},
#endif
         });
}
