// PARTS 1
// scratch memory: live allocations are aligned, inside memory obtained from upstream (or the initial buffer), and disjoint
#include "ref.hpp"
using namespace ref;

struct Upstream : pmr::memory_resource {
   std::map<char*, size_t> live;
   int odd = 0;
   void* do_allocate(std::size_t n, std::size_t a) override {
      auto p = (char*)aligned_alloc(16, (n + 15) / 16 * 16 + 16);
      live[p] = n;
      return p;
   }
   void do_deallocate(void* p, std::size_t n, std::size_t a) override {
      auto f = live.find((char*)p);
      if (f == live.end()) report("memory was returned upstream twice, or was never obtained from it");
      if (f->second != n) report("memory was returned upstream with size " + std::to_string(n) + " instead of " + std::to_string(f->second));
      live.erase(f);
      free(p);
   }
   bool do_is_equal(const pmr::memory_resource& o) const noexcept override {
      return this == &o;
   }
};

void bump(Rng& r) {
   Upstream up;
   static const size_t sizes[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 5000};
   size_t initial = r.coin(4) ? r(0, 40) : sizes[r(0, 25)];
   std::vector<char> storage(initial + 64);
   char* buf = storage.data() + r(0, 31);
   g_desc = "initial " + std::to_string(initial) + " bytes:";
   {
      pmr::monotonic_buffer_resource m(buf, initial, &up);
      int rounds = r(1, 3);
      for (int round = 0; round < rounds; round++) {
         std::vector<std::pair<char*, size_t>> live;
         int n = r(1, 25);
         for (int i = 0; i < n; i++) {
            size_t size = r.coin() ? r(0, 40) : sizes[r(0, 25)], align = size_t(1) << r(0, 4);
            // sometimes exactly what is left
            if (r.coin(6)) {
               size_t left = m.m_current_buffer_size;
               if (left < 6000) size = left + r(-1, 1) < 0 ? 0 : left + r(-1, 1);
               if (size > 1000000) size = 0;
            }
            g_desc += " " + std::to_string(size) + "@" + std::to_string(align);
            auto p = (char*)m.allocate(size, align);
            if (size_t(p) % align) report("allocation is not aligned to " + std::to_string(align));
            auto inside = [&](char* b, size_t s) {
               return b <= p && p + size <= b + s;
            };
            bool ok = inside(buf, initial);
            for (auto& [b, s] : up.live) ok = ok || inside(b, s);
            if (!ok) report("allocation of " + std::to_string(size) + " bytes does not lie inside memory the resource owns");
            for (auto& [q, s] : live)
               if (size && s && p < q + s && q < p + size) report("two live allocations overlap");
            memset(p, 0x5a, size);
            live.push_back({p, size});
            if (r.coin(4)) m.deallocate(p, size, align);
         }
         if (round + 1 < rounds) {
            m.release();
            g_desc += " release";
            if (!up.live.empty()) report("release did not return all memory upstream");
         }
      }
   }
   if (!up.live.empty()) report("destruction did not return all memory upstream");
}

template<int depth>
void nest(Rng& r) {
   auto before = pmr::get_default_resource();
   auto go = [&](auto size) {
      {
         auto guard = scope_resource<decltype(size)::value>();
         auto mine = pmr::get_default_resource();
         if (mine == before) report("entering a scope did not install its resource");
         pmr::vector<int> v;
         int n = r(0, 400);
         for (int i = 0; i < n; i++) v.push_back(i);
         pmr::map<int, int> mp;
         for (int i = 0; i < n / 8; i++) mp[i * 7 % 101] = i;
         if constexpr (depth > 0) {
            int k = r(0, 2);
            g_desc += " (" + std::to_string(n);
            for (int i = 0; i < k; i++) {
               try {
                  nest<depth - 1>(r);
                  if (r.coin(4)) throw 1;
               } catch (int) {
               }
            }
            g_desc += ")";
         }
         if (pmr::get_default_resource() != mine) report("leaving an inner scope did not reinstate the resource of the outer one");
         for (int i = 0; i < n; i++)
            if (v[i] != i) report("contents of a scratch container changed");
         if (depth > 0 && r.coin(5)) throw 2;
      }
   };
   try {
      if (r.coin()) go(std::integral_constant<size_t, 256>());
      else go(std::integral_constant<size_t, 4096>());
   } catch (int) {
   }
   if (pmr::get_default_resource() != before) report("leaving a scope did not reinstate the resource that was the default when it was entered");
}
void scopes(Rng& r) {
   g_desc = "nested scopes";
   nest<4>(r);
   if (pmr::get_default_resource() != &pmr::new_delete_resource_object) report("the default resource is not reinstated");
}

int main(int argc, char** argv) {
   return drive(argc, argv, {{"bump", bump}, {"scopes", scopes}});
}
