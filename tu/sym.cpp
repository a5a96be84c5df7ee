// quantum number operators
#include <TAT/TAT.hpp>
