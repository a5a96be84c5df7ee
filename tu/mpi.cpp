// the collectives, instantiated for a tensor (TAT_USE_MPI is defined by the flags of the spec)
#include <mpi.h>
#include <TAT/TAT.hpp>
using namespace TAT;
using T = Tensor<double, NoSymmetry>;
struct Op {
   T operator()(const T& a, const T& b) const;
};
T use(const mpi_t& m, const T& t, Op& op) {
   m.send(t, 1);
   T r = m.receive<T>(0);
   r = m.send_receive(t, 0, 1);
   r = m.broadcast(t, 0);
   r = m.reduce(t, 0, op);
   return r;
}
