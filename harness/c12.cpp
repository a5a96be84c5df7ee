// PARTS 4
// value semantics: a change through one tensor is seen through that tensor only
#include "ref.hpp"
using namespace ref;

template<typename T, typename S>
using TN = Tensor<T, S>;

// aliases made in every way that may share data
template<typename T, typename S>
TN<T, S> alias_of(Rng& r, const TN<T, S>& t, std::string& how) {
   switch (r(0, 8)) {
      case 0: how += " copy-constructed"; return TN<T, S>(t);
      case 1: {
         TN<T, S> a;
         a = t;
         how += " assigned";
         return a;
      }
      case 2: {
         how += " renamed";
         if (t.names.empty()) return t.edge_rename(std::map<DefaultName, DefaultName>{});
         return t.edge_rename(std::map<DefaultName, DefaultName>{{t.names[0], DefaultName(r.coin() ? std::string(t.names[0]) : "renamed" + std::to_string(r(0, 99)))}});
      }
      case 3: how += " converted"; return t.template to<T>();
      case 4: how += " transposed-to-itself"; return t.transpose(t.names);
      case 5: how += " copy()"; return t.copy();
      case 6: how += " reversed-nothing"; return t.reverse_edge(std::set<DefaultName>{}, false, std::set<DefaultName>{});
      case 7: how += " merged-nothing"; return t.merge_edge(std::map<DefaultName, std::vector<DefaultName>>{}, false, std::set<DefaultName>{}, std::set<DefaultName>{});
      default: {
         how += " moved";
         TN<T, S> a = t;
         return TN<T, S>(std::move(a));
      }
   }
}

template<typename T, typename S>
bool has_element(const R<T, S>& a) {
   return !a.v.empty();
}

// mutate x in place, return what it must be afterwards
template<typename T, typename S>
R<T, S> mutate(Rng& r, TN<T, S>& x, std::vector<TN<T, S>>& all, std::string& how) {
   auto w = read(x);
   auto each = [&](auto f) {
      for (auto& [k, v] : w.v) v = f(v);
   };
   T y = rnd_scalar<T>(r) + T(1);
   if (y == T(0)) y = T(2);
   int op = r(0, 12);
   if (op <= 2 && !has_element(w)) op = 3;
   switch (op) {
      case 0:
      case 1:
      case 2: {
         auto it = std::next(w.v.begin(), r(0, int(w.v.size()) - 1));
         if (op == 2) {
            how += " block()=";
            std::map<DefaultName, S> pos;
            for (size_t i = 0; i < w.rank(); i++) pos[x.names[i]] = it->first[i].s;
            auto& b = x.block(pos);
            for (auto& e : b) e = y;
            for (auto& [k, v] : w.v)
               if (charges(k).size() == 0 || std::equal(k.begin(), k.end(), it->first.begin(), [](auto& p, auto& q) { return comps(p.s) == comps(q.s); })) v = y;
         } else {
            how += " at()=";
            if constexpr (is_none<S>) {
               std::map<DefaultName, Size> pos;
               for (size_t i = 0; i < w.rank(); i++) pos[x.names[i]] = it->first[i].i;
               x.at(pos) = y;
            } else {
               std::map<DefaultName, std::tuple<S, Size>> pos;
               for (size_t i = 0; i < w.rank(); i++) pos[x.names[i]] = {it->first[i].s, it->first[i].i};
               x.at(pos) = y;
            }
            it->second = y;
         }
         break;
      }
      case 3:
         how += " transform";
         x.transform([&](T a) { return a * y + T(1); });
         each([&](T a) { return a * y + T(1); });
         break;
      case 4:
         how += " zero";
         x.zero();
         each([&](T) { return T(0); });
         break;
      case 5:
         how += " set";
         x.set([&] { return y; });
         each([&](T) { return y; });
         break;
      case 6:
         how += " +=scalar";
         x += y;
         each([&](T a) { return a + y; });
         break;
      case 7:
         how += " *=scalar";
         x *= y;
         each([&](T a) { return a * y; });
         break;
      case 8:
         how += " -=scalar";
         x -= y;
         each([&](T a) { return a - y; });
         break;
      case 9: {
         how += " +=self-or-alias";
         // an operand that shares data with x
         auto z = r.coin() ? x : x.copy();
         if (r.coin()) {
            x += x;
            each([&](T a) { return a + a; });
         } else {
            auto o = read(z);
            x += z;
            for (auto& [k, v] : w.v) v = v + o.v.at(k);
            same(read(z), o, "operand of +=");
         }
         break;
      }
      case 10: {
         how += " -=transposed";
         auto n = x.names;
         std::vector<DefaultName> m(n.begin(), n.end());
         r.shuffle(m);
         auto z = x.transpose(m);
         auto o = read(z);
         std::vector<std::string> ns;
         for (auto& q : n) ns.push_back(std::string(q));
         auto back = transposed(o, ns);
         x -= z;
         for (auto& [k, v] : w.v) v = v - back.v.at(k);
         same(read(z), o, "operand of -=");
         break;
      }
      case 11: {
         how += " load";
         auto other = random_tensor<T, S>(r, r(0, 3));
         auto s = other.dump();
         x.load(s);
         w = read(other);
         break;
      }
      default: {
         how += " test";
         x.test(y, T(1));
         T v = y;
         for (auto& [k, b] : x.core->blocks)
            for (auto& e : b) {
               if (e != v) report("test() left " + how);
               v += T(1);
            }
         w = read(x);
      }
   }
   return w;
}

template<typename T, typename S>
void history(Rng& r) {
   std::vector<TN<T, S>> ts{random_tensor<T, S>(r, r(0, 3))};
   std::vector<R<T, S>> model{read(ts[0])};
   g_desc = show(ts[0]) + " history:";
   int steps = r(2, 10);
   for (int s = 0; s < steps; s++) {
      size_t i = r(0, int(ts.size()) - 1);
      if (ts.size() < 6 && r.coin()) {
         g_desc += " [" + std::to_string(ts.size()) + "<-" + std::to_string(i);
         ts.push_back(alias_of<T, S>(r, ts[i], g_desc));
         g_desc += "]";
         auto m = model[i];
         auto got = read(ts.back());
         m.names = got.names;
         same(got, m, "alias");
         model.push_back(m);
      } else if (ts.size() > 1 && r.coin(6)) {
         g_desc += " [drop " + std::to_string(i) + "]";
         ts.erase(ts.begin() + i);
         model.erase(model.begin() + i);
      } else {
         g_desc += " [" + std::to_string(i);
         model[i] = mutate<T, S>(r, ts[i], ts, g_desc);
         g_desc += "]";
      }
      for (size_t k = 0; k < ts.size(); k++) same(read(ts[k]), model[k], "tensor " + std::to_string(k) + " after the history");
   }
}

// operations that return a new tensor leave their operands alone, and the result is independent of them
template<typename T, typename S>
void outplace(Rng& r) {
   size_t rank = r(1, 4);
   auto t = random_tensor<T, S>(r, rank);
   auto u = t.copy();
   u.transform([&](T) { return rnd_scalar<T>(r); });
   auto mt = read(t), mu = read(u);
   auto shared = t;
   TN<T, S> res;
   std::vector<DefaultName> order(t.names.begin(), t.names.end());
   r.shuffle(order);
   int op = r(0, 13);
   static const char* nm[] = {"+", "*scalar", "map", "conjugate", "transpose", "merge", "reverse", "rename", "contract", "svd", "qr", "norm/show/dump", "same_shape", "scalar-"};
   g_desc = show(t) + " " + nm[op];
   bool have = true;
   switch (op) {
      case 0: res = t + u; break;
      case 1: res = t * T(3); break;
      case 2: res = t.map([](T x) { return x + T(1); }); break;
      case 3: res = t.conjugate(); break;
      case 4: res = t.transpose(order); break;
      case 5: res = t.merge_edge(std::map<DefaultName, std::vector<DefaultName>>{{DefaultName("merged"), {order[0]}}}, false, std::set<DefaultName>{}, std::set<DefaultName>{}); break;
      case 6: res = t.reverse_edge(std::set<DefaultName>{order[0]}, true, std::set<DefaultName>{}); break;
      case 7: res = t.edge_rename(std::map<DefaultName, DefaultName>{{order[0], DefaultName("z9")}}); break;
      case 8: {
         std::map<DefaultName, DefaultName> away;
         for (auto& n : t.names)
            if (n != order[0]) away[n] = DefaultName("c" + std::string(n));
         TN<T, S> c = t.conjugate().edge_rename(away);
         auto mc = read(c);
         res = t.contract(c, std::set<std::tuple<DefaultName, DefaultName>>{{order[0], order[0]}});
         same(read(c), mc, "second operand of contract");
         break;
      }
      case 9: {
         auto x = t.svd(std::set<DefaultName>{order[0]}, DefaultName("l"), DefaultName("m"));
         res = x.U;
         break;
      }
      case 10: {
         auto x = t.qr('q', std::set<DefaultName>{order[0]}, DefaultName("l"), DefaultName("m"));
         res = x.R;
         break;
      }
      case 11:
         (void)t.template norm<2>();
         (void)t.show();
         (void)t.dump();
         have = false;
         break;
      case 12: res = t.same_shape(); break;
      default: res = T(2) - t;
   }
   same(read(t), mt, "operand");
   same(read(u), mu, "operand");
   same(read(shared), mt, "tensor sharing data with an operand");
   if (have) {
      auto m = op == 12 ? R<T, S>() : read(res);
      if (r.coin()) {
         t.zero();
         if (op != 12) same(read(res), m, "result after changing an operand");
      } else {
         res.zero();
         same(read(t), mt, "operand after changing the result");
         same(read(u), mu, "operand after changing the result");
         for (auto& [k, x] : read(res).v)
            if (x != T(0)) report("zero() left an element");
      }
      same(read(shared), mt, "tensor sharing data with an operand, after the change");
   }
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"history<double,none>", history<double, NoSymmetry>},
               {"history<complex,u1>", history<std::complex<double>, U1Symmetry>},
#endif
#if IN(1)
               {"history<float,z2>", history<float, Z2Symmetry>},
               {"history<double,fermi>", history<double, FermiSymmetry>},
               {"history<complex,none>", history<std::complex<double>, NoSymmetry>},
#endif
#if IN(2)
               {"outplace<double,none>", outplace<double, NoSymmetry>},
               {"outplace<double,u1>", outplace<double, U1Symmetry>},
#endif
#if IN(3)
               {"outplace<complex,fermi>", outplace<std::complex<double>, FermiSymmetry>},
               {"outplace<double,fermi-u1>", outplace<double, FermiU1Symmetry>},
#endif
         });
}
