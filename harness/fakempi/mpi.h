// A stand-in for <mpi.h>: ranks are threads of one process that run one at a time; sends are synchronous (rendezvous)
// unless the case asks for buffering, which is what the MPI standard allows.  Only what /repo uses is declared.
#pragma once
#include <condition_variable>
#include <cstring>
#include <deque>
#include <mutex>
#include <string>
#include <vector>
typedef int MPI_Comm;
typedef int MPI_Datatype;
struct MPI_Status {
   int MPI_SOURCE, MPI_TAG, MPI_ERROR, count;
};
#define MPI_COMM_WORLD 0
#define MPI_BYTE 1
#define MPI_CHAR 1
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE -1
#define MPI_ANY_TAG -1
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)

namespace fakempi {
   struct Deadlock {};
   struct Message {
      int src, dst, tag;
      std::string data;
      bool taken = false;
   };
   struct World {
      std::mutex lock;
      std::condition_variable cv;
      int size = 1, alive = 0, waiting = 0;
      bool buffered = false, dead = false;
      unsigned long epoch = 0; // counts state changes
      std::deque<std::shared_ptr<Message>> box;
      unsigned long sent = 0, received = 0;
      int arrived = 0;
      unsigned long barrier_no = 0;
   };
   inline World world;
   inline thread_local int me = 0;
   inline thread_local std::unique_lock<std::mutex>* held = nullptr;
   inline bool active = false; // true while ranks run

   // wait until p(); all threads waiting with nothing satisfied is a deadlock
   template<typename P>
   void wait(P p) {
      auto& w = world;
      if (!active) {
         if (!p()) throw Deadlock();
         return;
      }
      while (!p()) {
         if (w.dead) throw Deadlock();
         w.waiting++;
         if (w.waiting == w.alive) {
            // nobody else can run: is anybody else's condition satisfied? every state change wakes all waiters and
            // resets the count, so reaching alive means that none is
            w.dead = true;
            w.cv.notify_all();
            throw Deadlock();
         }
         auto e = w.epoch;
         w.cv.wait(*held, [&] { return w.epoch != e || w.dead; });
      }
      if (w.dead) throw Deadlock();
   }
   inline void changed() {
      world.epoch++;
      world.waiting = 0;
      world.cv.notify_all();
   }
   inline std::shared_ptr<Message> match(int src, int tag) {
      for (auto& m : world.box)
         if (m->dst == me && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag)) return m;
      return nullptr;
   }
} // namespace fakempi

inline int MPI_Init(int*, char***) {
   return 0;
}
inline int MPI_Finalize() {
   return 0;
}
inline int MPI_Initialized(int* r) {
   *r = 1;
   return 0;
}
inline int MPI_Finalized(int* r) {
   *r = 1;
   return 0;
}
inline int MPI_Comm_size(MPI_Comm, int* s) {
   *s = fakempi::active ? fakempi::world.size : 1;
   return 0;
}
inline int MPI_Comm_rank(MPI_Comm, int* r) {
   *r = fakempi::active ? fakempi::me : 0;
   return 0;
}
inline int MPI_Send(const void* data, int n, MPI_Datatype, int dst, int tag, MPI_Comm) {
   using namespace fakempi;
   if (dst < 0 || dst >= world.size) throw std::string("send to a rank that does not exist");
   auto m = std::make_shared<Message>();
   m->src = me;
   m->dst = dst;
   m->tag = tag;
   m->data.assign((const char*)data, n);
   world.box.push_back(m);
   world.sent++;
   changed();
   if (!world.buffered) fakempi::wait([&] { return m->taken; });
   return 0;
}
inline int MPI_Ssend(const void* data, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
   return MPI_Send(data, n, t, dst, tag, c);
}
inline int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* st) {
   using namespace fakempi;
   if (src != MPI_ANY_SOURCE && (src < 0 || src >= world.size)) throw std::string("receive from a rank that does not exist");
   std::shared_ptr<Message> m;
   fakempi::wait([&] { return bool(m = match(src, tag)); });
   if (st) {
      st->MPI_SOURCE = m->src;
      st->MPI_TAG = m->tag;
      st->count = int(m->data.size());
   }
   return 0;
}
inline int MPI_Get_count(const MPI_Status* st, MPI_Datatype, int* n) {
   *n = st->count;
   return 0;
}
inline int MPI_Recv(void* data, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status* st) {
   using namespace fakempi;
   if (src != MPI_ANY_SOURCE && (src < 0 || src >= world.size)) throw std::string("receive from a rank that does not exist");
   std::shared_ptr<Message> m;
   fakempi::wait([&] { return bool(m = match(src, tag)); });
   if (int(m->data.size()) > n) throw std::string("message truncated");
   memcpy(data, m->data.data(), m->data.size());
   if (st) {
      st->MPI_SOURCE = m->src;
      st->MPI_TAG = m->tag;
      st->count = int(m->data.size());
   }
   m->taken = true;
   for (auto i = world.box.begin(); i != world.box.end(); ++i)
      if (*i == m) {
         world.box.erase(i);
         break;
      }
   world.received++;
   changed();
   return 0;
}
inline int MPI_Barrier(MPI_Comm) {
   using namespace fakempi;
   auto b = world.barrier_no;
   if (++world.arrived == world.size) {
      world.arrived = 0;
      world.barrier_no++;
      changed();
   } else
      fakempi::wait([&] { return world.barrier_no != b; });
   return 0;
}
