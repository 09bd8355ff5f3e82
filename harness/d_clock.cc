// Drives fcp::SimulatedClock and the realtime clock.
// usage: d_clock <trace> <seed> <runs> <mode: st|mt|real>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "absl/time/time.h"
#include "fcp/base/clock.h"
#include "fcp/base/simulated_clock.h"
#include "trace.h"

using verif::Ev;

namespace {

verif::Trace* tr;
int next_id;
std::mutex id_mu;
std::atomic<int> outstanding;

std::string NewId() {
  std::lock_guard<std::mutex> l(id_mu);
  return "w" + std::to_string(next_id++);
}

// ---- simulated clock -----------------------------------------------------------
struct Sim {
  fcp::SimulatedClock clock;
  absl::Time base;
  verif::Rng rng;
  bool nested_advance;
  int budget = 0;
  std::mutex rng_mu;
  Sim(uint64_t seed, absl::Time b, bool na)
      : clock(b), base(b), rng(seed), nested_advance(na) {}
  long long Ms(absl::Time t) { return absl::ToInt64Milliseconds(t - base); }
  long long in(long long a, long long b) {
    std::lock_guard<std::mutex> l(rng_mu);
    return rng.in(a, b);
  }
};

void Register(Sim* s, long long dl, int depth);

struct W : public fcp::Clock::Waiter {
  Sim* s;
  std::string id;
  int depth;
  int action;
  void WakeUp() override {
    long long now = s->Ms(s->clock.Now());
    (*tr)(Ev("wake").s("w", id).i("now", now));
    if (action == 1 && depth < 3) {
      Register(s, now + s->in(-4, 4), depth + 1);
    } else if (action == 2 && depth < 3) {
      Register(s, now + s->in(-4, 0), depth + 1);
      Register(s, now + s->in(-4, 2), depth + 1);
    } else if (action == 3 && s->nested_advance) {
      long long d = s->in(0, 3);
      (*tr)(Ev("set").i("t", now + d));
      s->clock.AdvanceTime(absl::Milliseconds(d));
      (*tr)(Ev("setret"));
    } else if (action == 4) {
      std::this_thread::yield();
      if (s->in(0, 3) == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
  }
};

void Register(Sim* s, long long dl, int depth) {
  auto w = std::make_shared<W>();
  w->s = s;
  w->id = NewId();
  w->depth = depth;
  w->action = s->in(0, 5);
  (*tr)(Ev("reg").s("w", w->id).i("dl", dl));
  s->clock.WakeupWithDeadline(s->base + absl::Milliseconds(dl), w);
  (*tr)(Ev("regret").s("w", w->id));
}

void RunSt(verif::Rng& rng, int run) {
  bool back = rng.chance(20);
  Sim s(rng.u64(), rng.chance(50) ? absl::UnixEpoch() : absl::FromUnixMillis(rng.in(1, 1000000)), !back);
  next_id = 0;
  (*tr)(Ev("reset").i("run", run).b("real", false).i("now", 0));
  int ops = rng.in(4, 18);
  for (int k = 0; k < ops; k++) {
    long long now = s.Ms(s.clock.Now());
    int what = rng.in(0, 9);
    if (what < 6) {
      Register(&s, now + rng.in(-3, 12), 0);
    } else if (what < 9) {
      long long d = rng.in(0, 8);
      bool set = rng.chance(50);
      (*tr)(Ev("set").i("t", now + d));
      if (set) {
        s.clock.SetTime(s.base + absl::Milliseconds(now + d));
      } else {
        s.clock.AdvanceTime(absl::Milliseconds(d));
      }
      (*tr)(Ev("setret"));
    } else if (back) {
      long long d = rng.in(1, 5);
      (*tr)(Ev("set").i("t", now - d));
      s.clock.SetTime(s.base + absl::Milliseconds(now - d));
      (*tr)(Ev("setret"));
    }
    if (rng.chance(30)) (*tr)(Ev("now").i("t", s.Ms(s.clock.Now())));
  }
  (*tr)(Ev("set").i("t", 1000));
  s.clock.SetTime(s.base + absl::Milliseconds(1000));
  (*tr)(Ev("setret"));
  (*tr)(Ev("end"));
}

void RunMt(verif::Rng& rng, int run) {
  Sim s(rng.u64(), absl::UnixEpoch(), false);
  next_id = 0;
  (*tr)(Ev("reset").i("run", run).b("real", false).i("now", 0));
  int threads = rng.in(2, 4);
  std::vector<std::thread> ts;
  std::atomic<int> ready(0);
  for (int t = 0; t < threads; t++) {
    uint64_t seed = rng.u64();
    ts.emplace_back([&, t, seed] {
      verif::Rng r(seed);
      ready++;
      while (ready < threads) {
      }
      for (int k = 0; k < 6; k++) {
        if (t == 0 && r.chance(60)) {
          long long now = s.Ms(s.clock.Now());
          long long d = r.in(1, 4);
          (*tr)(Ev("set").i("t", now + d));
          s.clock.AdvanceTime(absl::Milliseconds(d));
          (*tr)(Ev("setret"));
        } else {
          Register(&s, r.in(0, 14), 0);
        }
        if (r.chance(30)) std::this_thread::yield();
      }
    });
  }
  for (auto& t : ts) t.join();
  (*tr)(Ev("set").i("t", 1000));
  s.clock.SetTime(s.base + absl::Milliseconds(1000));
  (*tr)(Ev("setret"));
  (*tr)(Ev("end"));
}

// ---- realtime clock --------------------------------------------------------------
absl::Time rbase;
long long Us(absl::Time t) { return absl::ToInt64Microseconds(t - rbase); }

void RegisterReal(absl::Duration d, int depth, int action);
struct RW : public fcp::Clock::Waiter {
  std::string id;
  int depth, action;
  void WakeUp() override {
    (*tr)(Ev("wake").s("w", id).i("now", Us(fcp::Clock::RealClock()->Now())));
    if (action == 1 && depth < 2) RegisterReal(absl::Microseconds(700), depth + 1, 0);
    if (action == 2 && depth < 2) RegisterReal(absl::Microseconds(-50), depth + 1, 1);
    if (action == 3) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    outstanding--;
  }
};
void RegisterReal(absl::Duration d, int depth, int action) {
  auto w = std::make_shared<RW>();
  w->id = NewId();
  w->depth = depth;
  w->action = action;
  outstanding++;
  // Whole microseconds, so that the recorded deadline is exact.
  absl::Time dl = rbase + absl::Microseconds(Us(fcp::Clock::RealClock()->Now() + d));
  (*tr)(Ev("reg").s("w", w->id).i("dl", Us(dl)));
  fcp::Clock::RealClock()->WakeupWithDeadline(dl, w);
  (*tr)(Ev("regret").s("w", w->id).i("now", Us(fcp::Clock::RealClock()->Now())));
}

void RunReal(verif::Rng& rng, int run) {
  next_id = 0;
  outstanding = 0;
  rbase = absl::FromUnixMicros(absl::ToUnixMicros(absl::Now()));
  (*tr)(Ev("reset").i("run", run).b("real", true).i("now", 0));
  int threads = rng.in(1, 3);
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; t++) {
    uint64_t seed = rng.u64();
    ts.emplace_back([seed] {
      verif::Rng r(seed);
      for (int k = 0; k < 5; k++) {
        RegisterReal(absl::Microseconds(r.chance(70) ? r.in(500, 12000) : r.in(-500, 1500)), 0, r.in(0, 4));
        if (r.chance(40)) std::this_thread::sleep_for(std::chrono::microseconds(r.in(0, 3000)));
      }
    });
  }
  for (auto& t : ts) t.join();
  for (int k = 0; k < 5000 && outstanding > 0; k++) {
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  std::this_thread::sleep_for(std::chrono::milliseconds(1));
  (*tr)(Ev("end"));
}

}  // namespace

int main(int argc, char** argv) {
  verif::Trace t(argv[1]);
  tr = &t;
  verif::Rng rng(strtoull(argv[2], nullptr, 10));
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  for (int r = 0; r < runs; r++) {
    if (mode == "st") RunSt(rng, r);
    if (mode == "mt") RunMt(rng, r);
    if (mode == "real") RunReal(rng, r);
  }
  t.flush();
  _exit(0);
}
