// PARTS 4
// binary round trip: every bit, several objects back to back, into objects that already hold something else
#include "io.hpp"
using namespace ref;

inline std::string any_name(Rng& r, size_t i) {
   std::string n;
   int len = r.coin(8) ? r(200, 300) : r(0, 12);
   for (int k = 0; k < len; k++) n += char(r(0, 255));
   return n;
}

template<typename T, typename S, typename Name>
void binary(Rng& r) {
   int n = r(1, 4);
   std::vector<Tensor<T, S, Name>> in;
   std::stringstream st;
   g_desc = "binary";
   for (int i = 0; i < n; i++) {
      in.push_back(named_tensor<T, S, Name>(r, false, any_name));
      g_desc += " " + describe(in.back());
      st < in.back();
   }
   st < Size(0x1122334455667788);
   for (int i = 0; i < n; i++) {
      // read into a tensor that already holds something
      bool fresh = r.coin();
      auto t = fresh ? Tensor<T, S, Name>() : named_tensor<T, S, Name>(r, false, any_name);
      auto alias = t;
      auto alias_copy = fresh ? t : t.copy();
      st > t;
      auto d = tensor_diff(in[i], t);
      if (!d.empty()) report("tensor " + std::to_string(i) + " read back: " + d);
      if (!fresh) d = tensor_diff(alias_copy, alias);
      if (!d.empty()) report("reading into a tensor changed another tensor: " + d);
   }
   Size mark = 0;
   st > mark;
   if (mark != 0x1122334455667788) report("reading a tensor did not stop where it ends");
   // dump / load, and the metadata and data parts separately
   auto s = in[0].dump();
   Tensor<T, S, Name> u;
   u.load(s);
   auto d = tensor_diff(in[0], u);
   if (!d.empty()) report("load(dump()): " + d);
   std::stringstream ms, ds;
   in[0].meta_put(ms);
   in[0].data_put(ds);
   Tensor<T, S, Name> v;
   v.meta_get(ms).data_get(ds);
   d = tensor_diff(in[0], v);
   if (!d.empty()) report("meta and data parts: " + d);
   if (v.dump() != s) report("dump of the loaded tensor differs from the dump it was loaded from");
}

template<typename T, typename S>
void singular(Rng& r) {
   using Sing = Singular<T, S, DefaultName>;
   std::vector<Sing> in;
   std::stringstream st;
   g_desc = "binary singular values:";
   for (int i = 0; i < 3; i++) {
      Sing s;
      int n = is_none<S> ? 1 : r(0, 3);
      for (int k = 0; k < n; k++) {
         auto& v = s.value[random_charge<S>(r, 2)];
         v.clear();
         int m = r(0, 4);
         for (int j = 0; j < m; j++) v.push_back(special<real_base_t<T>>(r, false));
         g_desc += " " + std::to_string(m);
      }
      g_desc += ";";
      in.push_back(s);
      st < s;
   }
   for (int i = 0; i < 3; i++) {
      Sing s = in[(i + 1) % 3];
      st > s;
      if (s.value.size() != in[i].value.size()) report("singular value blocks differ in number");
      auto a = in[i].value.begin();
      for (auto b = s.value.begin(); b != s.value.end(); ++a, ++b) {
         if (comps(a->first) != comps(b->first)) report("singular value charge differs");
         if (a->second.size() != b->second.size() || memcmp(a->second.data(), b->second.data(), a->second.size() * sizeof(real_base_t<T>))) report("singular values differ");
      }
   }
   Sing q;
   q.load(in[0].dump());
   if (q.dump() != in[0].dump()) report("singular: dump(load(dump)) differs");
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"binary<double,none>", binary<double, NoSymmetry, DefaultName>},
               {"binary<complex,none,string>", binary<std::complex<double>, NoSymmetry, std::string>},
               {"singular<double,none>", singular<double, NoSymmetry>},
               {"singular<complex,u1>", singular<std::complex<double>, U1Symmetry>},
#endif
#if IN(1)
               {"binary<float,z2>", binary<float, Z2Symmetry, DefaultName>},
               {"binary<double,u1,string>", binary<double, U1Symmetry, std::string>},
               {"singular<float,fermi-z2>", singular<float, FermiZ2Symmetry>},
#endif
#if IN(2)
               {"binary<double,fermi>", binary<double, FermiSymmetry, DefaultName>},
               {"binary<complex-float,fermi-z2,string>", binary<std::complex<float>, FermiZ2Symmetry, std::string>},
#endif
#if IN(3)
               {"binary<complex,fermi-u1>", binary<std::complex<double>, FermiU1Symmetry, DefaultName>},
               {"binary<float,fermi-u1,string>", binary<float, FermiU1Symmetry, std::string>},
#endif
         });
}
