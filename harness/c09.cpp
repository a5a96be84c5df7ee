// PARTS 4
// text round trip of names, shapes and blocks; every object read back with the precision it was printed with
#include "io.hpp"
using namespace ref;

inline std::string text_name(Rng& r, size_t i) {
   static const std::string special = "!\"#$%&'()*+-./0123456789:;<=>?@ABCXYZ\\^_`abcxyz{|}~";
   std::string n;
   int len = r.coin(10) ? r(250, 400) : r(1, 12);
   for (int k = 0; k < len; k++) n += special[r(0, int(special.size()) - 1)];
   return n;
}

template<typename T, typename S, typename Name>
void text(Rng& r) {
   int n = r(1, 3);
   std::vector<Tensor<T, S, Name>> in;
   std::stringstream st;
   st.precision(std::numeric_limits<real_base_t<T>>::max_digits10);
   g_desc = "text";
   bool space = r.coin(3);
   for (int i = 0; i < n; i++) {
      in.push_back(named_tensor<T, S, Name>(r, true, text_name));
      g_desc += " " + describe(in.back());
      st << in.back();
      if (space) st << " ";
   }
   st << "|end";
   for (int i = 0; i < n; i++) {
      auto t = r.coin() ? Tensor<T, S, Name>() : named_tensor<T, S, Name>(r, true, text_name);
      st >> t;
      if (!st) report("reading text tensor " + std::to_string(i) + " failed");
      auto d = tensor_diff(in[i], t, false);
      if (!d.empty()) report("tensor " + std::to_string(i) + " read back: " + d);
      if (space) {
         if (st.get() != ' ') report("reading a text tensor did not stop where it ends");
      }
   }
   std::string rest;
   std::getline(st, rest);
   if (rest != "|end") report("reading a text tensor did not stop where it ends: rest is \"" + rest.substr(0, 80) + "\"");
}

template<typename T, typename S>
void singular(Rng& r) {
   using Sing = Singular<T, S, DefaultName>;
   std::vector<Sing> in;
   std::stringstream st;
   st.precision(std::numeric_limits<real_base_t<T>>::max_digits10);
   g_desc = "text singular values:";
   for (int i = 0; i < 3; i++) {
      Sing s;
      int n = is_none<S> ? 1 : r(0, 3);
      for (int k = 0; k < n; k++) {
         auto& v = s.value[random_charge<S>(r, 2)];
         v.clear();
         int m = r(0, 4);
         for (int j = 0; j < m; j++) v.push_back(special<real_base_t<T>>(r, true));
         g_desc += " " + std::to_string(m);
      }
      g_desc += ";";
      in.push_back(s);
      st << s;
   }
   st << "|end";
   for (int i = 0; i < 3; i++) {
      Sing s = in[(i + 1) % 3];
      st >> s;
      if (!st) report("reading text singular values failed");
      if (s.value.size() != in[i].value.size()) report("singular value blocks differ in number");
      auto a = in[i].value.begin();
      for (auto b = s.value.begin(); b != s.value.end(); ++a, ++b) {
         if (comps(a->first) != comps(b->first)) report("singular value charge differs");
         if (a->second.size() != b->second.size()) report("number of singular values differs");
         for (size_t k = 0; k < a->second.size(); k++)
            if (!(a->second[k] == b->second[k])) report("singular values differ");
      }
   }
   std::string rest;
   std::getline(st, rest);
   if (rest != "|end") report("reading singular values did not stop where they end");
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"text<double,none>", text<double, NoSymmetry, DefaultName>},
               {"text<complex,none,string>", text<std::complex<double>, NoSymmetry, std::string>},
               {"singular<double,none>", singular<double, NoSymmetry>},
               {"singular<complex,u1>", singular<std::complex<double>, U1Symmetry>},
#endif
#if IN(1)
               {"text<float,z2>", text<float, Z2Symmetry, DefaultName>},
               {"text<double,u1,string>", text<double, U1Symmetry, std::string>},
               {"singular<float,fermi-z2>", singular<float, FermiZ2Symmetry>},
#endif
#if IN(2)
               {"text<double,fermi>", text<double, FermiSymmetry, DefaultName>},
               {"text<complex-float,fermi-z2,string>", text<std::complex<float>, FermiZ2Symmetry, std::string>},
#endif
#if IN(3)
               {"text<complex,fermi-u1>", text<std::complex<double>, FermiU1Symmetry, DefaultName>},
               {"text<float,fermi-u1,string>", text<float, FermiU1Symmetry, std::string>},
#endif
         });
}
