// instantiates the fermionic sign functions with the container types the library itself uses
#include <TAT/TAT.hpp>
using namespace TAT;
template<typename S>
bool use(const std::vector<S>& s, const pmr::vector<bool>& b, const pmr::vector<Rank>& r) {
   return S::get_reverse_parity(s, b, b) ^ S::get_transpose_parity(s, r) ^ S::get_split_merge_parity(s, r, b);
}
bool use_all(const std::vector<FermiSymmetry>& a, const std::vector<FermiZ2Symmetry>& b, const std::vector<FermiU1Symmetry>& c, const pmr::vector<bool>& f, const pmr::vector<Rank>& r) {
   return use(a, f, r) ^ use(b, f, r) ^ use(c, f, r);
}
