// PARTS 6
// element-wise arithmetic by name, conversions, mapping, conjugation, norms
#include "ref.hpp"
using namespace ref;

template<typename S>
std::vector<Edge<S>> edges_variant(Rng& r, const std::vector<Edge<S>>& es) {
   auto o = es;
   if constexpr (!is_none<S>)
      for (auto& e : o) {
         for (auto it = e.map.begin(); it != e.map.end();)
            if (r.coin(4)) it = e.map.erase(it);
            else ++it;
         if (r.coin(3)) {
            S s = random_charge<S>(r, 2);
            if (!e.map.count(s)) e.map[s] = r(1, 2);
         }
      }
   return o;
}

// keep only the segments both sides agree on
template<typename S>
bool compatible(const std::vector<Edge<S>>& a, const std::vector<Edge<S>>& b) {
   for (size_t i = 0; i < a.size(); i++)
      for (auto& [s, d] : a[i].map) {
         auto f = b[i].map.find(s);
         if (f != b[i].map.end() && f->second != d) return false;
      }
   return true;
}
template<typename S>
bool same_edges(const std::vector<Edge<S>>& a, const std::vector<Edge<S>>& b) {
   return a == b;
}

template<typename T>
T nz(Rng& r) {
   T x = rnd_scalar<T>(r);
   return x == T(0) ? T(2) : x;
}

template<typename A, typename B>
auto doop(int op, const A& a, const B& b) {
   using C = std::common_type_t<A, B>;
   switch (op) {
      case 0: return C(C(a) + C(b));
      case 1: return C(C(a) - C(b));
      case 2: return C(C(a) * C(b));
      default: return C(C(a) / C(b));
   }
}

template<typename T1, typename T2, typename S>
void binary_op(Rng& r) {
   using C = std::common_type_t<T1, T2>;
   double tol = 1e-5;
   size_t rank = r(0, 3);
   auto t1 = random_tensor<T1, S>(r, rank);
   auto es = t1.core->edges;
   bool differ = r.coin();
   auto e2 = differ ? edges_variant<S>(r, es) : es;
   auto n1 = make_names(rank);
   auto tmp = build<T2, S>(n1, e2, r);
   if constexpr (!is_none<S>)
      if (!differ && tmp.core->edges != es) return; // cannot happen: same edges
   for (auto& [k, b] : tmp.core->blocks)
      for (auto& x : b) x = nz<T2>(r);
   auto order = n1;
   r.shuffle(order);
   auto t2 = tmp.transpose(N(order));
   int op = r(0, 3);
   static const char* ops[] = {"+", "-", "*", "/"};
   g_desc = show(t1) + " " + ops[op] + " " + show(t2);
   auto a = read(t1);
   auto b2 = read(t2);
   auto b = transposed(b2, n1);
   R<C, S> want;
   want.names = n1;
   want.edges = a.edges;
   // result edges: union
   for (size_t i = 0; i < rank; i++)
      for (auto& [s, d] : b.edges[i].map) want.edges[i].map.insert({s, d});
   bool ok = compatible<S>(a.edges, b.edges);
   if (!ok) return;
   // every index of the union shape
   {
      std::function<void(size_t, std::vector<Pt<S>>)> go = [&](size_t i, std::vector<Pt<S>> k) {
         if (i == rank) {
            if (!zero_sum(charges(k)) && !is_none<S>) return;
            auto fa = a.v.find(k);
            auto fb = b.v.find(k);
            C x = fa == a.v.end() ? C(0) : C(fa->second);
            C y = fb == b.v.end() ? C(0) : C(fb->second);
            if (fa == a.v.end() && fb == b.v.end()) want.v[k] = C(0);
            else if (op == 3 && y == C(0)) want.v[k] = C(std::numeric_limits<double>::quiet_NaN());
            else want.v[k] = doop(op, x, y);
            return;
         }
         for (auto& [s, d] : want.edges[i].map)
            for (Size p = 0; p < d; p++) {
               auto q = k;
               q.push_back({s, p});
               go(i + 1, q);
            }
      };
      go(0, {});
   }
   auto res = [&] {
      switch (op) {
         case 0: return t1 + t2;
         case 1: return t1 - t2;
         case 2: return t1 * t2;
         default: return t1 / t2;
      }
   }();
   static_assert(std::is_same_v<typename decltype(res)::scalar_t, C>);
   auto got = read(res);
   for (auto it = want.v.begin(); it != want.v.end();) {
      if (it->second != it->second) { // division by an absent element: not specified
         got.v.erase(it->first);
         it = want.v.erase(it);
      } else
         ++it;
   }
   same(got, want, ops[op], tol);
   same(read(t2), b2, "second operand");
   // in place
   if constexpr (std::is_same_v<C, T1>) {
      bool eq = same_edges<S>(a.edges, b.edges);
      auto u = t1;
      auto inplace = [&] {
         switch (op) {
            case 0: u += t2; break;
            case 1: u -= t2; break;
            case 2: u *= t2; break;
            default: u /= t2; break;
         }
      };
      if (eq) {
         inplace();
         same(read(u), want, std::string(ops[op]) + "=", tol);
      } else if (!throws(inplace))
         report(std::string(ops[op]) + "= accepts operands with different edges");
   }
   same(read(t1), a, "first operand");
   // different names / rank are rejected
   if (rank > 0 && r.coin(4)) {
      auto t3 = t2.edge_rename(std::map<DefaultName, DefaultName>{{t2.names[0], DefaultName("other")}});
      if (!throws([&] { (void)(t1 + t3); })) report("addition of tensors with different leg names is accepted");
      if constexpr (std::is_same_v<C, T1>)
         if (!throws([&] { (void)(t1 += t3); })) report("in-place addition of tensors with different leg names is accepted");
      auto t4 = random_tensor<T2, S>(r, rank - 1);
      if (!throws([&] { (void)(t1 * t4); })) report("product of tensors of different rank is accepted");
   }
   // incompatible dimension is rejected
   if (rank > 0 && r.coin(4)) {
      auto e3 = es;
      bool any = false;
      for (auto& [s, d] : e3[0].map) d += 1, any = true;
      auto t5 = build<T2, S>(n1, e3, r);
      if (any && !compatible<S>(t1.core->edges, t5.core->edges) && !throws([&] { (void)(t1 - t5); })) report("difference of tensors of different dimension is accepted");
      if (any && !compatible<S>(t1.core->edges, t5.core->edges) && !throws([&] { (void)(t5 * t1); })) report("product of tensors of different dimension is accepted");
   }
}

template<typename T1, typename T2, typename S>
void scalar_op(Rng& r) {
   using C = std::common_type_t<T1, T2>;
   double tol = 1e-5;
   auto t = random_tensor<T1, S>(r, r(0, 4));
   for (auto& [k, b] : t.core->blocks)
      for (auto& x : b) x = nz<T1>(r);
   T2 y = nz<T2>(r);
   int op = r(0, 3);
   static const char* ops[] = {"+", "-", "*", "/"};
   g_desc = show(t) + " " + ops[op] + " scalar";
   auto a = read(t);
   R<C, S> right, left;
   right.names = left.names = a.names;
   right.edges = left.edges = a.edges;
   for (auto& [k, x] : a.v) {
      right.v[k] = doop(op, x, y);
      left.v[k] = doop(op, y, x);
   }
   auto p = [&] {
      switch (op) {
         case 0: return t + y;
         case 1: return t - y;
         case 2: return t * y;
         default: return t / y;
      }
   }();
   auto q = [&] {
      switch (op) {
         case 0: return y + t;
         case 1: return y - t;
         case 2: return y * t;
         default: return y / t;
      }
   }();
   same(read(p), right, "tensor op scalar", tol);
   same(read(q), left, "scalar op tensor", tol);
   same(read(t), a, "operand");
   if constexpr (std::is_same_v<C, T1>) {
      switch (op) {
         case 0: t += y; break;
         case 1: t -= y; break;
         case 2: t *= y; break;
         default: t /= y; break;
      }
      same(read(t), right, "in-place op with scalar", tol);
   }
}

template<typename T, typename S>
void unary(Rng& r) {
   auto t = random_tensor<T, S>(r, r(0, 4));
   auto a = read(t);
   g_desc = show(t) + " map/transform/to/conjugate/norm";
   long calls = 0;
   auto f = [&](T x) {
      calls++;
      return x * x + T(1);
   };
   R<T, S> w = a;
   for (auto& [k, x] : w.v) x = x * x + T(1);
   same(read(t.map(f)), w, "map");
   if (calls != long(a.v.size())) report("map calls the function " + std::to_string(calls) + " times");
   same(read(t), a, "operand of map");
   auto u = t.copy();
   calls = 0;
   u.transform(f);
   same(read(u), w, "transform");
   if (calls != long(a.v.size())) report("transform calls the function " + std::to_string(calls) + " times");
   // conversions
   {
      auto d = t.template to<std::complex<double>>();
      auto g = read(d);
      for (auto& [k, x] : a.v)
         if (g.v.at(k) != std::complex<double>(x)) report("conversion to complex changed an element");
      if (g.v.size() != a.v.size() || g.names != a.names) report("conversion changed the shape");
      auto e = read(t.template to<float>());
      for (auto& [k, x] : a.v)
         if (e.v.at(k) != float(std::real(x))) report("conversion to float is not the real part");
      same(read(t.template to<T>()), a, "conversion to the same type");
   }
   // norms
   double m = 0, s1 = 0, s2 = 0, s4 = 0, s3 = 0;
   for (auto& [k, x] : a.v) {
      double v = std::abs(std::complex<double>(x));
      m = std::max(m, v);
      s1 += v;
      s2 += v * v;
      s3 += v * v * v;
      s4 += v * v * v * v;
   }
   auto near = [](double x, double y) { return std::abs(x - y) <= 1e-4 * (1 + std::abs(y)); };
   if (!near(t.template norm<-1>(), m)) report("max norm is " + std::to_string(t.template norm<-1>()) + " not " + std::to_string(m));
   if (!near(t.template norm<0>(), double(a.v.size()))) report("0-norm");
   if (!near(t.template norm<1>(), s1)) report("1-norm");
   if (!near(t.template norm<2>(), std::sqrt(s2))) report("2-norm");
   if (!near(t.template norm<3>(), std::cbrt(s3))) report("3-norm");
   if (!near(t.template norm<4>(), std::pow(s4, 0.25))) report("4-norm");
   // conjugate: charges negated, arrow flipped, elements conjugated, at the same places (with the fermionic reversal sign)
   auto c = read(t.conjugate());
   R<T, S> wc;
   wc.names = a.names;
   for (auto& e : a.edges) {
      Edge<S> o;
      for (auto& [s, d] : e.map) o.map[neg(s)] = d;
      if constexpr (is_fermi<S>) o.arrow = !e.arrow;
      wc.edges.push_back(o);
   }
   for (auto& [k, x] : a.v) {
      auto q = k;
      for (auto& p : q) p.s = neg(p.s);
      T y = x;
      if constexpr (is_complex_v<T>) y = std::conj(x);
      wc.v[q] = y;
   }
   if constexpr (is_fermi<S>) {
      // sign: product of elements with their conjugate partners must be consistent per charge combination
      std::map<std::vector<std::vector<long>>, int> sg;
      if (c.names != wc.names || c.v.size() != wc.v.size()) report("conjugate changed the shape");
      for (size_t i = 0; i < wc.edges.size(); i++)
         if (!(c.edges[i].map == wc.edges[i].map) || c.edges[i].arrow != wc.edges[i].arrow) report("conjugate: wrong edge");
      for (auto& [k, x] : wc.v) {
         auto f = c.v.find(k);
         if (f == c.v.end()) report("conjugate lost an element");
         std::vector<S> cs = charges(k);
         bool flip = false;
         // the sign convention: reversing every leg order, i.e. pairs of odd legs
         flip = pair_parity(cs);
         T want = flip ? -x : x;
         if (f->second != want && f->second != -want) report("conjugate changed the size of an element");
         std::vector<std::vector<long>> kk;
         for (auto& s : cs) kk.push_back(comps(s));
         if (x != T(0)) {
            int now = f->second == x ? 1 : -1;
            if (sg.count(kk) && sg[kk] != now) report("conjugate: different signs inside one block");
            sg[kk] = now;
         }
      }
   } else
      same(c, wc, "conjugate");
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"binary<double,double,none>", binary_op<double, double, NoSymmetry>},
               {"binary<double,complex,none>", binary_op<double, std::complex<double>, NoSymmetry>},
#endif
#if IN(1)
               {"binary<double,double,u1>", binary_op<double, double, U1Symmetry>},
#endif
#if IN(2)
               {"binary<complex,double,fermi>", binary_op<std::complex<double>, double, FermiSymmetry>},
#endif
#if IN(3)
               {"scalar<double,double,none>", scalar_op<double, double, NoSymmetry>},
               {"scalar<float,double,u1>", scalar_op<float, double, U1Symmetry>},
               {"scalar<complex,complex,z2>", scalar_op<std::complex<double>, std::complex<double>, Z2Symmetry>},
               {"scalar<double,complex,fermi>", scalar_op<double, std::complex<double>, FermiSymmetry>},
               {"scalar<double,float,fermi-u1>", scalar_op<double, float, FermiU1Symmetry>},
#endif
#if IN(4)
               {"unary<double,none>", unary<double, NoSymmetry>},
               {"unary<complex,u1>", unary<std::complex<double>, U1Symmetry>},
               {"unary<float,z2>", unary<float, Z2Symmetry>},
               {"unary<complex,none>", unary<std::complex<double>, NoSymmetry>},
               {"unary<complex,fermi>", unary<std::complex<double>, FermiSymmetry>},
#endif
#if IN(5)
               {"binary<float,float,fermi-z2>", binary_op<float, float, FermiZ2Symmetry>},
               {"binary<complex-float,float,z2>", binary_op<std::complex<float>, float, Z2Symmetry>},
#endif
         });
}
