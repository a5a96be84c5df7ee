// scratch memory: instantiates the resource, the allocator and the scope guard
#include <TAT/TAT.hpp>
using namespace TAT;
struct Sixteen { alignas(16) char c[48]; };
void use(pmr::polymorphic_allocator<double>& a, pmr::polymorphic_allocator<Sixteen>& b, pmr::polymorphic_allocator<char>& c) {
   a.deallocate(a.allocate(1), 1);
   b.deallocate(b.allocate(1), 1);
   c.deallocate(c.allocate(1), 1);
   scope_resource<> g1;
   scope_resource<64> g2;
}
