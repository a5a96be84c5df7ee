// PARTS 1
// lazy nodes against a model that recomputes
#include "ref.hpp"
#include <lazy.hpp>
#include <variant>
using namespace ref;

using RootP = std::shared_ptr<lazy::root<long>>;
struct Val { // a value type that is not trivially copyable
   std::vector<long> v;
};
struct M {
   char kind; // r n p
   std::vector<size_t> in;
   long salt = 0;
   bool set = false;    // roots
   bool cached = false; // nodes
   long value = 0;
   bool alive = true; // handle still held
};

static std::vector<long> g_count;
static long mixl(long salt, const std::vector<long>& a) {
   unsigned long h = (unsigned long)salt * 1000003u + 17;
   for (auto x : a) h = h * 31 + (unsigned long)x * 7919 + (h >> 7);
   return long(h % 1000007);
}

template<typename NodeP, typename PathP>
struct World {
   using H = std::variant<RootP, NodeP, PathP>;
   std::vector<std::optional<H>> h;
   std::vector<M> m;

   template<typename... A>
   void add(bool node, std::vector<size_t> in, long salt, A&... a) {
      size_t id = m.size();
      g_count.push_back(0);
      auto f = [id, salt](const auto&... x) {
         g_count[id]++;
         return mixl(salt, {long(x)...});
      };
      M q;
      q.kind = node ? 'n' : 'p';
      q.in = in;
      q.salt = salt;
      if (node) h.push_back(H(std::in_place_index<1>, lazy::Node(f, a...)));
      else h.push_back(H(std::in_place_index<2>, lazy::Path(f, a...)));
      m.push_back(q);
   }
   bool ready(size_t i) {
      if (m[i].kind == 'r') return m[i].set;
      if (m[i].kind == 'n' && m[i].cached) return true;
      for (auto j : m[i].in)
         if (!ready(j)) return false;
      return true;
   }
   // model evaluation; counts evaluations in e
   long eval(size_t i, std::vector<long>& e) {
      if (m[i].kind == 'r') return m[i].value;
      if (m[i].kind == 'n' && m[i].cached) return m[i].value;
      std::vector<long> a;
      for (auto j : m[i].in) a.push_back(eval(j, e));
      e[i]++;
      long v = mixl(m[i].salt, a);
      if (m[i].kind == 'n') {
         m[i].cached = true;
         m[i].value = v;
      }
      return v;
   }
   long fresh(size_t i) {
      if (m[i].kind == 'r') return m[i].value;
      std::vector<long> a;
      for (auto j : m[i].in) a.push_back(fresh(j));
      return mixl(m[i].salt, a);
   }
   void invalidate(size_t i) {
      for (size_t k = 0; k < m.size(); k++)
         for (auto j : m[k].in)
            if (j == i) {
               m[k].cached = false;
               invalidate(k);
               break;
            }
   }
};

void run(Rng& r) {
   lazy::Graph graph;
   lazy::use_graph(graph);
   g_count.clear();
   auto mkn = [](long) { return 0l; };
   RootP dummy = lazy::Root<long>(1);
   using NodeP = decltype(lazy::Node(mkn, dummy));
   using PathP = decltype(lazy::Path(mkn, dummy));
   dummy.reset();
   World<NodeP, PathP> w;
   g_desc = "lazy:";
   auto pick = [&]() -> std::optional<size_t> {
      std::vector<size_t> a;
      for (size_t i = 0; i < w.m.size(); i++)
         if (w.m[i].alive) a.push_back(i);
      if (a.empty()) return {};
      return a[r(0, int(a.size()) - 1)];
   };
   struct Snap {
      lazy::Snapshot s;
      std::vector<M> m;
   };
   std::optional<Snap> snap;
   auto check_counts = [&](const std::vector<long>& before, const std::vector<long>& e) {
      for (size_t k = 0; k < w.m.size(); k++)
         if (g_count[k] - before[k] != e[k]) report("node " + std::to_string(k) + " was evaluated " + std::to_string(g_count[k] - before[k]) + " times, should be " + std::to_string(e[k]));
   };
   auto get = [&](size_t i) {
      std::vector<long> before = g_count, e(w.m.size(), 0);
      long want = w.eval(i, e);
      if (want != w.fresh(i)) report("model inconsistent");
      long got = std::visit([](auto& p) { return long(p->get()); }, *w.h[i]);
      if (got != want) report("node " + std::to_string(i) + " returns " + std::to_string(got) + " but recomputing gives " + std::to_string(want));
      check_counts(before, e);
   };
   int steps = r(5, 40);
   for (int s = 0; s < steps; s++) {
      int op = r(0, 11);
      auto p = pick();
      if (!p || op == 0) {
         long v = r(0, 50);
         bool unset = r.coin(4);
         w.h.push_back(unset ? World<NodeP, PathP>::H(std::in_place_index<0>, lazy::Root<long>()) : World<NodeP, PathP>::H(std::in_place_index<0>, lazy::Root<long>(long(v))));
         M q;
         q.kind = 'r';
         q.set = !unset;
         q.value = v;
         w.m.push_back(q);
         g_count.push_back(0);
         g_desc += " root" + std::to_string(w.m.size() - 1) + (unset ? "?" : "");
         continue;
      }
      if (op <= 3) {
         auto a = *pick(), b = *pick(), c = *pick();
         bool node = !r.coin(4);
         long salt = r(0, 1000);
         int n = r(1, 3);
         std::vector<size_t> in{a};
         if (n > 1) in.push_back(b);
         if (n > 2) in.push_back(c);
         if (n == 1) {
            auto x = *w.h[a];
            std::visit([&](auto& x) { w.add(node, in, salt, x); }, x);
         } else if (n == 2) {
            auto x = *w.h[a], y = *w.h[b];
            std::visit([&](auto& x, auto& y) { w.add(node, in, salt, x, y); }, x, y);
         } else {
            auto x = *w.h[a], y = *w.h[b], z = *w.h[c];
            std::visit([&](auto& x, auto& y, auto& z) { w.add(node, in, salt, x, y, z); }, x, y, z);
         }
         g_desc += std::string(" ") + (node ? "node" : "path") + std::to_string(w.m.size() - 1) + "(";
         for (auto q : in) g_desc += std::to_string(q) + " ";
         g_desc += ")";
      } else if (op <= 6) {
         if (w.ready(*p)) {
            g_desc += " get" + std::to_string(*p);
            get(*p);
         }
      } else if (op <= 8) {
         // assign a root
         std::vector<size_t> rs;
         for (size_t i = 0; i < w.m.size(); i++)
            if (w.m[i].alive && w.m[i].kind == 'r') rs.push_back(i);
         if (rs.empty()) continue;
         auto i = rs[r(0, int(rs.size()) - 1)];
         auto before = g_count;
         auto& q = std::get<0>(*w.h[i]);
         if (r.coin(6)) {
            q->unset();
            w.m[i].set = false;
            g_desc += " unset" + std::to_string(i);
         } else {
            long v = r(0, 50);
            if (r.coin()) q->set(long(v));
            else q->set(v);
            w.m[i].set = true;
            w.m[i].value = v;
            g_desc += " set" + std::to_string(i) + "=" + std::to_string(v);
         }
         w.invalidate(i);
         check_counts(before, std::vector<long>(w.m.size(), 0));
      } else if (op == 9) {
         g_desc += " drop" + std::to_string(*p);
         w.h[*p].reset();
         w.m[*p].alive = false;
      } else if (op == 10) {
         g_desc += " dump";
         snap = Snap{graph.dump(), w.m};
      } else if (snap && snap->m.size() == w.m.size()) {
         g_desc += " load";
         graph.load(snap->s);
         for (size_t i = 0; i < w.m.size(); i++) {
            bool alive = w.m[i].alive;
            w.m[i] = snap->m[i];
            w.m[i].alive = alive;
         }
      }
   }
   for (size_t i = 0; i < w.m.size(); i++)
      if (w.m[i].alive && w.ready(i)) get(i);
   // a second read of everything evaluates no node
   for (size_t i = 0; i < w.m.size(); i++)
      if (w.m[i].alive && w.ready(i)) get(i);
   lazy::use_graph();
}

// tensors as values, references returned by nodes stay valid until the next change
void tensors(Rng& r) {
   lazy::Graph graph;
   lazy::use_graph(graph);
   using TT = Tensor<double, NoSymmetry>;
   auto a0 = random_tensor<double, NoSymmetry>(r, 2, "", 3), b0 = random_tensor<double, NoSymmetry>(r, 2, "", 3);
   g_desc = "lazy tensors " + show(a0) + show(b0);
   auto a = lazy::Root(a0);
   auto s = lazy::Node([](const TT& x) { return x * 2.0; }, a);
   auto t = lazy::Node([](const TT& x, const TT& y) { return x + y; }, a, s);
   auto u = lazy::Path([](const TT& x) -> const TT& { return x; }, t);
   auto v = lazy::Node([](const TT& x) { return x * -1.0; }, u);
   auto check = [&](const TT& base, const TT& got, double f) {
      auto w = read(base);
      for (auto& [k, x] : w.v) x = x * f;
      same(read(got), w, "lazy tensor");
   };
   check(a0, v->get(), -3);
   check(a0, t->get(), 3);
   auto snap = graph.dump();
   a->set(b0);
   check(b0, s->get(), 2);
   check(b0, v->get(), -3);
   graph.load(snap);
   check(a0, v->get(), -3);
   check(a0, a->get(), 1);
   check(a0, s->get(), 2);
   a->set(TT(b0));
   check(b0, v->get(), -3);
   lazy::use_graph();
}

int main(int argc, char** argv) {
   return drive(argc, argv, {{"lazy", run}, {"lazy-tensors", tensors}});
}
