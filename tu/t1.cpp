#include <TAT/TAT.hpp>
using namespace TAT;
template struct TAT::Tensor<double, NoSymmetry, DefaultName>;
template struct TAT::Tensor<double, FermiU1Symmetry, DefaultName>;
void use(Tensor<double,FermiU1Symmetry>& a){
  (void)a.transpose(std::vector<DefaultName>{});
}
