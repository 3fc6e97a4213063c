// Stand-in for mpi::monitor: an emergency-stop channel. As in the real library, non-root ranks message rank 0, rank 0
// forwards when it looks at the channel; every message takes a delay chosen by the scheduler.
#pragma once
#include "./mpi.hpp"

namespace mpi {
  class monitor {
    struct node {
      bool requested = false, told_root = false, told_by_root = false, finalized = false;
    };
    struct shared_t {
      int n = 0;
      bool root_knows = false, root_forwarded = false, verdict_sent = false, verdict = false;
      int reported    = 0; // finalisation messages that reached the root
      std::vector<node> nodes;
      std::vector<char> verdict_at;
    };
    communicator com;
    std::shared_ptr<shared_t> s;
    int me = 0;

    node &my() const { return s->nodes[me]; }
    static void forward(std::shared_ptr<shared_t> s) {
      if (s->root_forwarded) return;
      s->root_forwarded = true;
      for (int r = 0; r < s->n; ++r) {
        if (r == 0)
          s->nodes[0].told_by_root = true;
        else
          sim::at(1 + sim::delay("monitor-from-root"), [s, r] {
            s->nodes[r].told_by_root = true;
            sim::wake();
          });
      }
    }

    public:
    monitor(communicator c) : com(c.duplicate()) {
      me      = com.rank();
      auto &p = sim::shared("monitor/" + std::to_string(com.get()) + (has_env ? "" : "/r" + std::to_string(sim::rank()) + "/" + std::to_string(counter()++)));
      if (!p) {
        auto x = std::make_shared<shared_t>();
        x->n   = com.size();
        x->nodes.resize(x->n);
        x->verdict_at.assign(x->n, 0);
        p = x;
      }
      s = std::static_pointer_cast<shared_t>(p);
    }
    static int &counter() {
      static int c = 0;
      return c;
    }
    monitor(monitor const &)            = delete;
    monitor &operator=(monitor const &) = delete;
    ~monitor() {
      if (!my().finalized) finalize_communications();
    }

    void request_emergency_stop() {
      sim::probe("emergency requested");
      if (my().requested) return;
      my().requested = true;
      sim::trace("monitor: emergency requested");
      if (me == 0)
        forward(s);
      else {
        auto sh = s;
        sim::at(1 + sim::delay("monitor-to-root"), [sh] {
          sh->root_knows = true;
          sim::wake();
        });
      }
    }
    [[nodiscard]] bool emergency_occured() {
      sim::point("monitor-poll");
      if (me == 0 && s->root_knows) forward(s);
      return my().requested || my().told_by_root || (me == 0 && s->root_knows) || (s->verdict_at[me] && s->verdict);
    }
    void finalize_communications() {
      if (my().finalized) return;
      my().finalized = true;
      auto sh        = s;
      int m          = me;
      if (me != 0) {
        bool req = my().requested;
        sim::at(1 + sim::delay("monitor-finalize"), [sh, req] {
          if (req) sh->root_knows = true;
          sh->reported++;
          sim::wake();
        });
      } else {
        sim::block([sh] { return sh->reported >= sh->n - 1; }, "monitor finalize (root)");
        sh->verdict = sh->root_knows || sh->nodes[0].requested || sh->root_forwarded;
        for (int r = 1; r < sh->n; ++r)
          sim::at(1 + sim::delay("monitor-verdict"), [sh, r] {
            sh->verdict_at[r] = 1;
            sim::wake();
          });
        sh->verdict_at[0] = 1;
      }
      sim::block([sh, m] { return (bool)sh->verdict_at[m]; }, "monitor finalize");
    }
  };
} // namespace mpi
