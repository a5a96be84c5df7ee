// element-wise operations and in-place changes, instantiated for a symmetry of each kind
#include <TAT/TAT.hpp>
using namespace TAT;
template<typename T, typename S>
struct Use {
   using Ten = Tensor<T, S>;
   static void arithmetic(Ten& t, const Ten& u, const T& x) {
      t += u; t -= u; t *= u; t /= u;
      t += x; t -= x; t *= x; t /= x;
      (void)(t + u); (void)(t - u); (void)(t * u); (void)(t / u);
      (void)(t + x); (void)(t - x); (void)(t * x); (void)(t / x);
      (void)(x + t); (void)(x - t); (void)(x * t); (void)(x / t);
   }
   static void change(Ten& t, T (*f)(T), T (*g)()) {
      t.transform(f); t.set(g); t.zero();
      (void)t.map(f); (void)t.copy(); (void)t.conjugate(); (void)t.same_shape();
      (void)t.template to<std::complex<double>>();
      (void)t.template to<double>();
      (void)t.template to<float>();
   }
   static void access(Ten& t) {
      const auto& c = t;
      (void)t.at(pmr::map<FastName, typename Ten::EdgePoint>());
      (void)c.const_at(pmr::map<FastName, typename Ten::EdgePoint>());
      (void)t.block(pmr::map<FastName, S>());
      (void)c.const_block(pmr::map<FastName, S>());
   }
};
template struct Use<double, NoSymmetry>;
template struct Use<double, U1Symmetry>;
template struct Use<std::complex<double>, FermiU1Symmetry>;
