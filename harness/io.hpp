// shared by the binary and text IO harnesses
#pragma once
#include "ref.hpp"
namespace ref {
   template<typename Name>
   std::string nstr(const Name& n) {
      return std::string(n);
   }
   template<typename S>
   bool edge_eq(const Edge<S>& a, const Edge<S>& b) {
      if (a.map.size() != b.map.size()) return false;
      auto i = a.map.begin();
      for (auto j = b.map.begin(); j != b.map.end(); ++i, ++j)
         if (comps(i->first) != comps(j->first) || i->second != j->second) return false;
      if constexpr (is_fermi<S>)
         if (a.arrow != b.arrow) return false;
      return true;
   }
   // exact equality of two tensors: names and their index, edges, block keys, every bit of every element
   template<typename T, typename S, typename Name>
   std::string tensor_diff(const Tensor<T, S, Name>& a, const Tensor<T, S, Name>& b, bool bits = true) {
      if (a.names.size() != b.names.size()) return "number of names differs";
      for (size_t i = 0; i < a.names.size(); i++)
         if (nstr(a.names[i]) != nstr(b.names[i])) return "name " + std::to_string(i) + " is \"" + nstr(b.names[i]) + "\" instead of \"" + nstr(a.names[i]) + "\"";
      if (b.name_to_index.size() != b.names.size()) return "name index has the wrong size";
      for (size_t i = 0; i < b.names.size(); i++) {
         auto f = b.name_to_index.find(b.names[i]);
         if (f == b.name_to_index.end() || f->second != i) return "name index is wrong";
      }
      if (a.core->edges.size() != b.core->edges.size()) return "number of edges differs";
      for (size_t i = 0; i < a.core->edges.size(); i++)
         if (!edge_eq<S>(a.core->edges[i], b.core->edges[i])) return "edge " + std::to_string(i) + " is " + show<S>(b.core->edges[i]) + " instead of " + show<S>(a.core->edges[i]);
      size_t na = 0, nb = 0;
      for ([[maybe_unused]] auto& x : a.core->blocks) na++;
      for ([[maybe_unused]] auto& x : b.core->blocks) nb++;
      if (na != nb) return "number of blocks is " + std::to_string(nb) + " instead of " + std::to_string(na);
      auto j = b.core->blocks.begin();
      for (auto i = a.core->blocks.begin(); i != a.core->blocks.end(); ++i, ++j) {
         if constexpr (!is_none<S>) {
            if (i->first.size() != j->first.size()) return "block key length differs";
            for (size_t k = 0; k < i->first.size(); k++)
               if (comps(i->first[k]) != comps(j->first[k])) return "block key differs";
         }
         auto &x = i->second, &y = j->second;
         if (x.size() != y.size()) return "block size is " + std::to_string(y.size()) + " instead of " + std::to_string(x.size());
         for (size_t k = 0; k < x.size(); k++)
            if (bits ? memcmp(&x[k], &y[k], sizeof(T)) != 0 : !(x[k] == y[k])) {
               std::ostringstream o;
               o.precision(18);
               o << "element " << k << " is " << y[k] << " instead of " << x[k];
               return o.str();
            }
      }
      return "";
   }
   template<typename T>
   T special(Rng& r, bool finite) {
      using B = real_base_t<T>;
      auto one = [&]() -> B {
         switch (r(0, 11)) {
            case 0: return B(0);
            case 1: return -B(0);
            case 2: return finite ? B(1e30) : std::numeric_limits<B>::quiet_NaN();
            case 3: return finite ? B(-1e-30) : std::numeric_limits<B>::infinity();
            case 4: return finite ? B(1) / 3 : -std::numeric_limits<B>::infinity();
            case 5: return std::numeric_limits<B>::denorm_min() * (finite ? 0 : 1);
            case 6: return std::numeric_limits<B>::max() / 2;
            case 7: return B(r(-1000, 1000)) / 7;
            default: return B(r(-9, 9));
         }
      };
      if constexpr (is_complex_v<T>) return T(one(), one());
      else return one();
   }
   // random tensor with names of type Name
   template<typename T, typename S, typename Name>
   Tensor<T, S, Name> named_tensor(Rng& r, bool finite, const std::function<std::string(Rng&, size_t)>& name) {
      auto t0 = random_tensor<T, S>(r, r(0, 4), "", 3);
      std::vector<Name> names;
      std::set<std::string> used;
      for (size_t i = 0; i < t0.names.size(); i++) {
         std::string n;
         do n = name(r, i);
         while (!used.insert(n).second);
         names.push_back(Name(n));
      }
      // edges with charges that occur in no block are dropped by the library when it builds the tensor
      auto t = Tensor<T, S, Name>(names, t0.core->edges);
      for (auto& [k, b] : t.core->blocks)
         for (auto& x : b) x = special<T>(r, finite);
      return t;
   }
   template<typename T, typename S, typename Name>
   std::string describe(const Tensor<T, S, Name>& t) {
      std::string o = "[";
      for (size_t i = 0; i < t.names.size(); i++) o += "\"" + nstr(t.names[i]).substr(0, 60) + "\"" + show<S>(t.core->edges[i]) + " ";
      size_t n = 0;
      for ([[maybe_unused]] auto& x : t.core->blocks) n++;
      return o + "] " + std::to_string(n) + " blocks";
   }
} // namespace ref
