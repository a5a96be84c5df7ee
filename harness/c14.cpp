// PARTS 2 FLAGS -DTAT_USE_MPI -I@H/fakempi -pthread
// collectives over the stand-in MPI: every size, every root, several schedules
#include <memory>
#include <stdexcept>
#include <mpi.h>
#include "io.hpp"
#include <thread>
using namespace ref;

template<typename F>
void ranks(Rng& r, int size, F f) {
   using namespace fakempi;
   auto& w = world;
   w.size = size;
   w.alive = size;
   w.waiting = 0;
   w.dead = false;
   w.box.clear();
   w.sent = w.received = 0;
   w.arrived = 0;
   w.buffered = r.coin();
   active = true;
   std::vector<std::string> err(size);
   std::vector<std::thread> th;
   std::vector<int> order;
   for (int i = 0; i < size; i++) order.push_back(i);
   r.shuffle(order);
   for (int i : order)
      th.emplace_back([&, i] {
         std::unique_lock<std::mutex> l(w.lock);
         me = i;
         held = &l;
         try {
            mpi_t m;
            m.size = size;
            m.rank = i;
            f(m);
         } catch (const Deadlock&) {
            err[i] = "deadlock";
         } catch (const std::string& s) {
            err[i] = s;
         } catch (const std::exception& e) {
            err[i] = std::string("exception ") + e.what();
         }
         w.alive--;
         changed();
         held = nullptr;
      });
   for (auto& t : th) t.join();
   active = false;
   for (int i = 0; i < size; i++)
      if (!err[i].empty() && err[i] != "deadlock") report("rank " + std::to_string(i) + ": " + err[i]);
   for (int i = 0; i < size; i++)
      if (!err[i].empty()) report("rank " + std::to_string(i) + ": deadlock with " + std::to_string(size) + " processes");
   if (!w.box.empty()) report("a message is never received");
   if (w.sent != w.received) report("sends and receives do not match");
}

template<typename T, typename S>
void bcast(Rng& r) {
   int size = r.coin(5) ? r(9, 24) : r(1, 8);
   int root = r(0, size - 1);
   std::vector<Tensor<T, S>> ts;
   for (int i = 0; i < size; i++) ts.push_back(random_tensor<T, S>(r, r(0, 3), "r" + std::to_string(i)));
   g_desc = "broadcast size " + std::to_string(size) + " root " + std::to_string(root) + " " + show(ts[root]);
   std::vector<Tensor<T, S>> out(size);
   ranks(r, size, [&](mpi_t& m) { out[m.rank] = m.broadcast(ts[m.rank], root); });
   for (int i = 0; i < size; i++) {
      auto d = tensor_diff(ts[root], out[i]);
      if (!d.empty()) report("broadcast: rank " + std::to_string(i) + " has another tensor: " + d);
   }
   if (r.coin(4) && size > 1) {
      int bad = r.coin() ? size + r(0, 2) : -1 - r(0, 2);
      ranks(r, size, [&](mpi_t& m) {
         if (!throws([&] { (void)m.broadcast(ts[m.rank], bad); })) throw std::string("an invalid root is accepted");
      });
   }
}

// elements identify the process they come from; the operation concatenates
template<typename T, typename S>
void reduce(Rng& r) {
   int size = r.coin(5) ? r(9, 24) : r(1, 8);
   int root = r(0, size - 1);
   g_desc = "reduce size " + std::to_string(size) + " root " + std::to_string(root);
   using TT = Tensor<T, NoSymmetry>;
   auto make = [&](const std::vector<double>& v) {
      auto t = TT({DefaultName("i")}, {Edge<NoSymmetry>(Size(v.size()))});
      auto& b = t.core->blocks.begin()->second;
      for (size_t i = 0; i < v.size(); i++) b[i] = T(v[i]);
      return t;
   };
   auto vals = [](const TT& t) {
      std::vector<double> v;
      for (auto& x : t.core->blocks.begin()->second) v.push_back(std::real(x));
      return v;
   };
   std::vector<TT> out(size);
   long calls = 0;
   ranks(r, size, [&](mpi_t& m) {
      auto mine = make({double(m.rank)});
      out[m.rank] = m.reduce(mine, root, [&](const TT& a, const TT& b) {
         calls++;
         auto x = vals(a), y = vals(b);
         x.insert(x.end(), y.begin(), y.end());
         return make(x);
      });
      if (vals(mine) != std::vector<double>{double(m.rank)}) throw std::string("reduce changed its operand");
   });
   auto v = vals(out[root]);
   std::sort(v.begin(), v.end());
   std::vector<double> want;
   for (int i = 0; i < size; i++) want.push_back(i);
   if (v != want) report("reduce: the root does not have every process's tensor exactly once");
   if (calls != size - 1) report("reduce: the operation was applied " + std::to_string(calls) + " times");
}

template<typename T, typename S>
void point(Rng& r) {
   int size = r(1, 6);
   int src = r(0, size - 1), dst = r(0, size - 1);
   auto t = random_tensor<T, S>(r, r(0, 4));
   g_desc = "send_receive size " + std::to_string(size) + " " + std::to_string(src) + "->" + std::to_string(dst) + " " + show(t);
   std::vector<Tensor<T, S>> out(size);
   ranks(r, size, [&](mpi_t& m) {
      auto mine = m.rank == src ? t : Tensor<T, S>();
      out[m.rank] = m.send_receive(mine, src, dst);
   });
   auto d = tensor_diff(t, out[dst]);
   if (!d.empty()) report("send_receive: " + d);
   // several transfers one after the other keep their order
   if (src != dst) {
      std::vector<Tensor<T, S>> ts;
      for (int i = 0; i < 3; i++) ts.push_back(random_tensor<T, S>(r, r(0, 2)));
      std::vector<Tensor<T, S>> got(3);
      ranks(r, size, [&](mpi_t& m) {
         if (m.rank == src)
            for (auto& x : ts) m.send(x, dst);
         if (m.rank == dst)
            for (auto& x : got) x = m.template receive<Tensor<T, S>>(src);
         m.barrier();
      });
      for (int i = 0; i < 3; i++)
         if (auto e = tensor_diff(ts[i], got[i]); !e.empty()) report("send/receive in sequence: " + e);
   }
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
               {"broadcast<double,none>", bcast<double, NoSymmetry>},
               {"reduce<double,none>", reduce<double, NoSymmetry>},
               {"point<double,none>", point<double, NoSymmetry>},
#endif
#if IN(1)
               {"broadcast<complex,fermi-u1>", bcast<std::complex<double>, FermiU1Symmetry>},
               {"reduce<complex,none>", reduce<std::complex<double>, NoSymmetry>},
               {"point<float,u1>", point<float, U1Symmetry>},
#endif
         });
}
