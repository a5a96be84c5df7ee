// the transposition kernels, instantiated through the function the library calls
#include <TAT/TAT.hpp>
using namespace TAT;
using R = pmr::vector<Rank>;
using S = pmr::vector<Size>;
template<typename T>
void use(const T* s, T* d, const R& p, const R& q, const S& x, const S& y, const S& l, const S& m, Rank r, Size n, bool parity) {
   do_transpose(s, d, p, q, x, y, l, m, r, n, parity);
   matrix_transpose(n, n, s, d);
}
template void use<double>(const double*, double*, const R&, const R&, const S&, const S&, const S&, const S&, Rank, Size, bool);
