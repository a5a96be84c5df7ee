// PARTS 1
// quantum numbers: group laws componentwise, compound assignment, one strict total order
#include "ref.hpp"
using namespace ref;

template<typename S>
S pick(Rng& r) {
   static const int f[] = {0, 1, -1, 2, -2, 3, 7, -8, 100, -100, 10000, -10000, 9999, -9999};
   static const int u[] = {0, 1, -1, 2, -2, 5, -7, 1000, -1000, 65536, -65536, 500000000, -500000000, 1 << 28, -(1 << 28)};
   auto F = [&] { return r.coin() ? r(-3, 3) : f[r(0, 13)]; };
   auto U = [&] { return r.coin() ? r(-3, 3) : u[r(0, 14)]; };
   if constexpr (std::is_same_v<S, NoSymmetry>) return S();
   else if constexpr (std::is_same_v<S, Z2Symmetry>) return S(r.coin());
   else if constexpr (std::is_same_v<S, U1Symmetry>) return S(U());
   else if constexpr (std::is_same_v<S, FermiSymmetry>) return S(F());
   else if constexpr (std::is_same_v<S, FermiZ2Symmetry>) return S(F(), r.coin());
   else return S(F(), U());
}

template<typename S>
void expect(const S& got, const S& want, const char* what) {
   if (comps(got) != comps(want)) report(std::string(what) + " gives " + show(got) + " but should give " + show(want));
}

template<typename S>
void laws(Rng& r) {
   S a = pick<S>(r), b = pick<S>(r), c = pick<S>(r);
   if (r.coin(5)) b = a;
   if (r.coin(5)) c = b;
   g_desc = "a=" + show(a) + " b=" + show(b) + " c=" + show(c);
   expect<S>(a + b, add(a, b), "a+b");
   expect<S>(-a, neg(a), "-a");
   S x = a;
   expect<S>(x += b, add(a, b), "a+=b");
   expect<S>(x, add(a, b), "a after a+=b");
   x = a;
   x += x;
   expect<S>(x, add(a, a), "a after a+=a");
   expect<S>(b + a, a + b, "b+a");
   expect<S>((a + b) + (-b), a, "(a+b)+(-b)");
   expect<S>((a + b) + c, a + (b + c), "(a+b)+c");
   expect<S>(a + S(), a, "a+0");
   expect<S>(a + (-a), S(), "a+(-a)");
   bool same_comps = comps(a) == comps(b);
   if ((a == b) != same_comps) report("a==b disagrees with the components");
   if ((a != b) == same_comps) report("a!=b disagrees with the components");
   if ((a < b) + (b < a) + same_comps != 1) report("exactly one of a<b, b<a, a=b must hold");
   if ((a > b) != (b < a)) report("a>b is not b<a");
   if ((a <= b) != !(b < a)) report("a<=b is not !(b<a)");
   if ((a >= b) != !(a < b)) report("a>=b is not !(a<b)");
   if ((a < b) && (b < c) && !(a < c)) report("< is not transitive");
   std::map<S, int> m;
   m[a] = 1;
   m[b] = 2;
   m[c] = 3;
   std::set<std::vector<long>> keys{comps(a), comps(b), comps(c)};
   if (m.size() != keys.size()) report("a map keyed by quantum numbers has " + std::to_string(m.size()) + " keys instead of " + std::to_string(keys.size()));
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {{"laws<none>", laws<NoSymmetry>},
          {"laws<z2>", laws<Z2Symmetry>},
          {"laws<u1>", laws<U1Symmetry>},
          {"laws<fermi>", laws<FermiSymmetry>},
          {"laws<fermi-z2>", laws<FermiZ2Symmetry>},
          {"laws<fermi-u1>", laws<FermiU1Symmetry>}});
}
