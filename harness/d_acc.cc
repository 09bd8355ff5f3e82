// Drives secagg::Accumulator under stepped schedulers and real thread pools.
// usage: d_acc <trace> <seed> <runs> <mode: step|threads>
#include <atomic>
#include <chrono>
#include <deque>
#include <map>
#include <set>
#include <thread>

#include "absl/synchronization/notification.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/secagg/server/secagg_scheduler.h"
#include "trace.h"

using namespace fcp;
using fcp::secagg::Accumulator;
using fcp::secagg::SecAggScheduler;
using verif::Ev;
using verif::Rng;
using Value = std::vector<int>;

namespace {

verif::Trace* tr;

class StepScheduler : public Scheduler {
 public:
  StepScheduler(Rng* g, bool fifo) : g_(g), fifo_(fifo) {}
  void Schedule(std::function<void()> task) override { q_.push_back(std::move(task)); }
  void WaitUntilIdle() override { while (Step()) {} }
  bool Step() {
    if (q_.empty()) return false;
    size_t k = fifo_ ? 0 : g_->in(0, q_.size() - 1);
    auto t = std::move(q_[k]);
    q_.erase(q_.begin() + k);
    t();
    return true;
  }
  bool empty() const { return q_.empty(); }
 private:
  Rng* g_;
  bool fifo_;
  std::deque<std::function<void()>> q_;
};

void Pause(Rng& g) {
  switch (g.in(0, 4)) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(g.in(1, 60))); break;
    default: break;
  }
}

std::function<std::unique_ptr<Value>()> Gen(int t, uint64_t seed, bool pause) {
  return [t, seed, pause] {
    Rng h(seed);
    (*tr)(Ev("gs").i("t", t));
    if (pause) Pause(h);
    (*tr)(Ev("ge").i("t", t));
    return std::make_unique<Value>(Value{t});
  };
}

std::function<std::unique_ptr<Value>(const Value&, const Value&)> Comb(bool pause) {
  auto n = std::make_shared<std::atomic<int>>(0);
  return [pause, n](const Value& a, const Value& b) {
    Rng h(++*n);
    int t = b.size() == 1 ? b[0] : -1;
    (*tr)(Ev("cs").il("a", a).i("t", t));
    if (pause) Pause(h);
    auto r = std::make_unique<Value>(a);
    r->insert(r->end(), b.begin(), b.end());
    (*tr)(Ev("ce").i("t", t));
    return r;
  };
}

void StepRun(uint64_t seed) {
  Rng g(seed);
  (*tr)(Ev("reset").b("ex", true));
  StepScheduler par(&g, false), seq(&g, true);
  SimulatedClock clock;
  SecAggScheduler sched(&par, &seq, &clock);
  auto acc = sched.CreateAccumulator<Value>(std::make_unique<Value>(), Comb(false));
  int next = 1, nobs = 1;
  bool ended = false;
  std::set<int> delayed;  // tasks whose time has not come
  std::map<int, absl::Time> due;
  auto time_passes = [&](absl::Duration d) {
    clock.AdvanceTime(d);
    for (auto it = due.begin(); it != due.end();)
      if (it->second <= clock.Now()) { delayed.erase(it->first); it = due.erase(it); } else ++it;
  };
  int ops = g.in(3, 40);
  bool wild = g.chance(40);  // with cancellation
  for (int i = 0; i < ops; ++i) {
    int op = g.in(0, 99);
    if (op < 25) {
      int t = next++;
      (*tr)(Ev("sched").i("t", t));
      if (g.chance(35)) {
        absl::Duration d = absl::Seconds(g.in(0, 5));
        delayed.insert(t);
        due[t] = clock.Now() + d;
        acc->Schedule(Gen(t, 0, false), d);
        if (d == absl::ZeroDuration()) { delayed.erase(t); due.erase(t); }
      } else {
        acc->Schedule(Gen(t, 0, false));
      }
      (*tr)(Ev("schedret").i("t", t));
    } else if (op < 48) {
      par.Step();
    } else if (op < 68) {
      seq.Step();
    } else if (op < 76) {
      time_passes(absl::Seconds(g.in(0, 3)));
    } else if (op < 84) {
      int k = nobs++;
      (*tr)(Ev("obs").i("k", k));
      bool r = acc->SetAsyncObserver([k] { (*tr)(Ev("fired").i("k", k)); });
      (*tr)(Ev("obsret").i("k", k).b("r", r));
    } else if (op < 91) {
      (*tr)(Ev("isidle").b("r", acc->IsIdle()));
    } else if (op < 95) {
      sched.WaitUntilIdle();
      (*tr)(Ev("waited").il("delayed", delayed));
    } else if (wild && op < 97) {
      (*tr)(Ev("cancel"));
      acc->Cancel();
      (*tr)(Ev("cancelret"));
    } else if (wild && op < 99 && !ended) {
      ended = true;
      auto v = acc->GetResultAndCancel();
      (*tr)(Ev("result").il("v", *v));
    }
    if (ended) break;
  }
  time_passes(absl::Seconds(10));
  while (!par.empty() || !seq.empty()) sched.WaitUntilIdle();
  (*tr)(Ev("waited").il("delayed", std::vector<int>()));
  (*tr)(Ev("done"));
  if (!ended) {
    (*tr)(Ev("isidle").b("r", acc->IsIdle()));
    auto v = acc->GetResultAndCancel();
    (*tr)(Ev("result").il("v", *v));
  }
}

void ThreadRun(uint64_t seed) {
  Rng g(seed);
  (*tr)(Ev("reset").b("ex", false));
  auto par = CreateThreadPoolScheduler(g.in(1, 4));
  auto seq = CreateThreadPoolScheduler(1);
  {
    SecAggScheduler sched(par.get(), seq.get());
    bool pause = g.chance(80);
    auto acc = sched.CreateAccumulator<Value>(std::make_unique<Value>(), Comb(pause));
    int n = g.in(1, 10);
    bool cancel = g.chance(40);
    uint64_t s2 = g.u64();
    std::thread canceller;
    if (cancel)
      canceller = std::thread([acc, s2] {
        Rng h(s2);
        std::this_thread::sleep_for(std::chrono::microseconds(h.in(0, 300)));
        (*tr)(Ev("cancel"));
        acc->Cancel();
        (*tr)(Ev("cancelret"));
      });
    int k = 0;
    for (int t = 1; t <= n; ++t) {
      (*tr)(Ev("sched").i("t", t));
      if (g.chance(20)) acc->Schedule(Gen(t, g.u64(), pause), absl::Microseconds(g.in(0, 300)));
      else acc->Schedule(Gen(t, g.u64(), pause));
      (*tr)(Ev("schedret").i("t", t));
      if (pause) Pause(g);
      if (g.chance(20)) {
        bool r = acc->IsIdle();
        (*tr)(Ev("isidle").b("r", r));
      }
      if (!cancel && g.chance(15)) {
        ++k;
        auto fired = std::make_shared<absl::Notification>();
        (*tr)(Ev("obs").i("k", k));
        bool r = acc->SetAsyncObserver([k, fired] {
          (*tr)(Ev("fired").i("k", k));
          fired->Notify();
        });
        (*tr)(Ev("obsret").i("k", k).b("r", r));
        if (r) fired->WaitForNotification();
      }
    }
    if (cancel) {
      canceller.join();
    } else {
      // The result is taken by an observer, as the server does.
      ++k;
      auto fired = std::make_shared<absl::Notification>();
      (*tr)(Ev("obs").i("k", k));
      bool r = acc->SetAsyncObserver([k, fired] {
        (*tr)(Ev("fired").i("k", k));
        fired->Notify();
      });
      (*tr)(Ev("obsret").i("k", k).b("r", r));
      if (r) fired->WaitForNotification();
      sched.WaitUntilIdle();
      (*tr)(Ev("waited").il("delayed", std::vector<int>()));
      (*tr)(Ev("done"));
      auto v = acc->GetResultAndCancel();
      (*tr)(Ev("result").il("v", *v));
    }
    // Delayed tasks of a cancelled accumulator end up in the pool later.
    if (cancel) std::this_thread::sleep_for(std::chrono::microseconds(700));
    sched.WaitUntilIdle();
  }
  par->WaitUntilIdle();
  // A real-time waiter may still hand a task to the pool; leave the pools alone then.
  if (g.chance(50)) { par->WaitUntilIdle(); seq->WaitUntilIdle(); }
  par.release();
  seq.release();
}

}  // namespace

int main(int argc, char** argv) {
  tr = new verif::Trace(argv[1]);
  uint64_t seed = atoll(argv[2]);
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  for (int r = 0; r < runs; ++r) {
    uint64_t s = seed * 100003 + r;
    if (mode == "step") StepRun(s); else ThreadRun(s);
  }
  tr->flush();
  _exit(0);
}
