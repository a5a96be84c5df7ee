// interned names and the name-list helpers, instantiated as the library uses them
#include <TAT/TAT.hpp>
using namespace TAT;
bool use(const std::string& s, const std::vector<FastName>& v, const std::vector<std::string>& w) {
   FastName a(s), b("x"), c, d(3);
   const std::string& t = a;
   bool r = a == b || a != b || a < b || a > b || a <= b || a >= b || t == s;
   r ^= check_valid_name(v, Rank(3));
   r ^= check_valid_name(w, Rank(3));
   r ^= construct_name_to_index<std::map<FastName, Rank>>(v).empty();
   r ^= construct_name_to_index<pmr::map<std::string, Rank>>(w).empty();
   return r;
}
