// PARTS 1
// FastName: one id per string and one string per id, for every history of creations, dumps and loads
#include "ref.hpp"
using namespace ref;

std::string rname(Rng& r) {
   int k = r(0, 9);
   if (k == 0) return "";
   std::string s;
   int len = k < 6 ? r(1, 2) : r(0, 20);
   for (int i = 0; i < len; i++) s += k < 6 ? char('a' + r(0, 3)) : char(r(0, 255));
   return s;
}

void history(Rng& r) {
   auto saved = fast_name_dataset;
   std::vector<std::pair<std::string, FastName>> seen;
   g_desc = "names:";
   std::string dump;
   std::vector<std::pair<std::string, FastName>> seen_at_dump;
   int n = r(1, 40);
   for (int i = 0; i < n; i++) {
      int what = r(0, 19);
      if (what == 0 || (what == 1 && dump.empty())) {
         dump = dump_fast_name_dataset();
         seen_at_dump = seen;
         g_desc += " (dump)";
      } else if (what == 1) {
         load_fast_name_dataset(dump);
         seen = seen_at_dump;
         g_desc += " (load)";
      } else {
         auto s = rname(r);
         bool c = s.find('\0') == std::string::npos && r.coin();
         FastName x = c ? FastName(s.c_str()) : FastName(s);
         g_desc += " \"" + s.substr(0, 12) + "\"";
         seen.push_back({s, x});
      }
      for (auto& [a, x] : seen) {
         if (static_cast<const std::string&>(x) != a) report("the name \"" + a + "\" converts back to \"" + static_cast<const std::string&>(x) + "\"");
         std::ostringstream o;
         o << x;
         if (o.str() != a) report("the name \"" + a + "\" prints as \"" + o.str() + "\"");
         if (FastName(a).id != x.id) report("the same string got two ids");
         auto& [b, y] = seen[r(0, int(seen.size()) - 1)];
         bool same_string = a == b;
         if ((x == y) != same_string || (x != y) == same_string) report("equality of names disagrees with equality of their strings \"" + a + "\" \"" + b + "\"");
         if ((x < y) + (y < x) + same_string != 1) report("names are not totally ordered");
         if ((x > y) != (y < x) || (x <= y) != !(y < x) || (x >= y) != !(x < y)) report("comparisons of names disagree");
      }
   }
   if (static_cast<const std::string&>(FastName()) != "" || FastName("").id != FastName().id) report("the default name is not the empty string");
   // reserved names stay what they are
   if (static_cast<const std::string&>(InternalName<FastName>::SVD_U) != ",SVD_U") report("a reserved name changed");
   fast_name_dataset = saved;
}

int main(int argc, char** argv) {
   return drive(argc, argv, {{"history", history}});
}
