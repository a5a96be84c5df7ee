// element access, instantiated for every symmetry type and both kinds of names
#include <TAT/TAT.hpp>
using namespace TAT;
template<typename S, typename N>
double use(Tensor<double, S, N>& t) {
   const auto& c = t;
   typename std::decay_t<decltype(t)>::EdgePoint p;
   double r = t.at(pmr::map<N, decltype(p)>()) + c.const_at(pmr::map<N, decltype(p)>()) + c.at(pmr::map<N, decltype(p)>());
   r += t.block(pmr::map<N, S>()).size() + c.const_block(pmr::map<N, S>()).size() + c.block(pmr::map<N, S>()).size();
   return r;
}
template double use<NoSymmetry, FastName>(Tensor<double, NoSymmetry, FastName>&);
template double use<Z2Symmetry, FastName>(Tensor<double, Z2Symmetry, FastName>&);
template double use<U1Symmetry, FastName>(Tensor<double, U1Symmetry, FastName>&);
template double use<FermiSymmetry, FastName>(Tensor<double, FermiSymmetry, FastName>&);
template double use<FermiZ2Symmetry, FastName>(Tensor<double, FermiZ2Symmetry, FastName>&);
template double use<FermiU1Symmetry, FastName>(Tensor<double, FermiU1Symmetry, FastName>&);
template double use<NoSymmetry, std::string>(Tensor<double, NoSymmetry, std::string>&);
template double use<U1Symmetry, std::string>(Tensor<double, U1Symmetry, std::string>&);
