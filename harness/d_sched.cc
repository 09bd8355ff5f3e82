// Drives schedulers, workers, promises and futures.
// usage: d_sched <trace> <seed> <runs> <mode: pool|rely|step|future>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <thread>

#include "fcp/base/future.h"
#include "fcp/base/scheduler.h"
#include "harness.h"
#include "trace.h"

using verif::Ev;
using verif::Rng;

namespace {

verif::Trace* tr;

void Pause(Rng& g) {
  switch (g.in(0, 5)) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(g.in(1, 60))); break;
    case 2: for (volatile int i = 0, e = g.in(1, 400); i < e; ++i) {} break;
    default: break;
  }
}

// A scheduler whose tasks are run by the driver, in a random order.
class StepScheduler : public fcp::Scheduler {
 public:
  explicit StepScheduler(Rng* g) : g_(g) {}
  void Schedule(std::function<void()> task) override { q_.push_back(std::move(task)); }
  void WaitUntilIdle() override { while (Step()) {} }
  bool Step() {
    if (q_.empty()) return false;
    size_t k = g_->in(0, q_.size() - 1);
    auto t = std::move(q_[k]);
    q_.erase(q_.begin() + k);
    t();
    return true;
  }
 private:
  Rng* g_;
  std::deque<std::function<void()>> q_;
};

struct World {
  fcp::Scheduler* sched;
  std::vector<std::unique_ptr<fcp::Worker>> workers;
  std::atomic<int> next{1};
  std::atomic<int> budget;
  bool pause;

  // Hands in a task for worker w (0: the scheduler itself).
  void Submit(int w, uint64_t seed, int depth) {
    if (budget.fetch_sub(1) <= 0) return;
    int id = next++;
    std::string name = "t" + std::to_string(id);
    std::string wn = w ? "w" + std::to_string(w) : "";
    (*tr)(Ev("sub").s("t", name).s("w", wn));
    auto body = [this, name, w, seed, depth] {
      Rng g(seed);
      (*tr)(Ev("start").s("t", name));
      if (pause) Pause(g);
      if (depth < 4 && g.chance(45)) {
        int k = g.in(1, 2);
        for (int i = 0; i < k; ++i) {
          Submit(g.chance(50) ? w : g.in(0, workers.size()), g.u64(), depth + 1);
          if (pause) Pause(g);
        }
      }
      (*tr)(Ev("end").s("t", name));
    };
    if (w) workers[w - 1]->Schedule(body);
    else sched->Schedule(body);
    (*tr)(Ev("subret").s("t", name));
  }
};

void PoolRun(uint64_t seed) {
  Rng g(seed);
  (*tr)(Ev("reset"));
  int threads = g.in(1, 5);
  auto pool = fcp::CreateThreadPoolScheduler(threads);
  World w;
  w.sched = pool.get();
  int nw = g.in(0, 3);
  for (int i = 0; i < nw; ++i) w.workers.push_back(pool->CreateWorker());
  w.budget = g.in(1, 40);
  w.pause = g.chance(80);
  int subs = g.in(1, 3);
  std::vector<std::thread> ts;
  for (int s = 0; s < subs; ++s) {
    uint64_t sd = g.u64();
    ts.emplace_back([&w, sd, nw] {
      Rng h(sd);
      int k = h.in(1, 12);
      for (int i = 0; i < k; ++i) {
        w.Submit(h.in(0, nw), h.u64(), 0);
        if (w.pause) Pause(h);
      }
    });
  }
  int idlers = g.in(0, 2);
  for (int k = 0; k < idlers; ++k) {
    uint64_t sd = g.u64();
    ts.emplace_back([&w, sd, k] {
      Rng h(sd);
      Pause(h);
      int rounds = h.in(1, 3);
      for (int i = 0; i < rounds; ++i) {
        std::string n = "i" + std::to_string(k);
        (*tr)(Ev("idle").s("k", n));
        w.sched->WaitUntilIdle();
        (*tr)(Ev("idleret").s("k", n));
        Pause(h);
      }
    });
  }
  for (auto& t : ts) t.join();
  (*tr)(Ev("idle").s("k", "end"));
  pool->WaitUntilIdle();
  (*tr)(Ev("idleret").s("k", "end"));
  w.workers.clear();
  pool.reset();
  (*tr)(Ev("done"));
}

// Tasks that wait for each other, no more than there are threads.
void RelyRun(uint64_t seed) {
  Rng g(seed);
  (*tr)(Ev("reset"));
  int threads = g.in(2, 5);
  auto pool = fcp::CreateThreadPoolScheduler(threads);
  std::vector<std::unique_ptr<fcp::Worker>> workers;
  for (int i = 0; i < threads; ++i) workers.push_back(pool->CreateWorker());
  int next = 1;
  int rounds = g.in(1, 5);
  for (int r = 0; r < rounds; ++r) {
    int k = g.in(2, threads);
    auto started = std::make_shared<std::atomic<int>>(0);
    for (int i = 0; i < k; ++i) {
      std::string name = "t" + std::to_string(next++);
      bool own = g.chance(40);
      (*tr)(Ev("sub").s("t", name).s("w", own ? "w" + std::to_string(i + 1) : ""));
      auto body = [name, started, k] {
        (*tr)(Ev("start").s("t", name));
        ++*started;
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(8);
        while (*started < k && std::chrono::steady_clock::now() < end) std::this_thread::yield();
        (*tr)(Ev("met").s("t", name).b("r", *started >= k));
        (*tr)(Ev("end").s("t", name));
      };
      if (own) workers[i]->Schedule(body);
      else pool->Schedule(body);
      (*tr)(Ev("subret").s("t", name));
      if (g.chance(30)) Pause(g);
    }
    if (g.chance(70)) {
      (*tr)(Ev("idle").s("k", "i"));
      pool->WaitUntilIdle();
      (*tr)(Ev("idleret").s("k", "i"));
    } else {
      while (*started < k) std::this_thread::yield();
    }
  }
  (*tr)(Ev("idle").s("k", "end"));
  pool->WaitUntilIdle();
  (*tr)(Ev("idleret").s("k", "end"));
  workers.clear();
  pool.reset();
  (*tr)(Ev("done"));
}

void StepRun(uint64_t seed) {
  Rng g(seed);
  (*tr)(Ev("reset"));
  StepScheduler sched(&g);
  World w;
  w.sched = &sched;
  w.pause = false;
  int nw = g.in(1, 3);
  for (int i = 0; i < nw; ++i) w.workers.push_back(sched.CreateWorker());
  w.budget = g.in(1, 40);
  int ops = g.in(1, 40);
  for (int i = 0; i < ops; ++i) {
    if (g.chance(55)) w.Submit(g.in(0, nw), g.u64(), 0);
    else sched.Step();
  }
  sched.WaitUntilIdle();
  (*tr)(Ev("done"));
}

// ---- futures -----------------------------------------------------------------------
using fcp::thread::Future;
using fcp::thread::Promise;

struct Payload {
  std::unique_ptr<int> v;
};

std::string Show(const std::optional<Payload>& p) {
  return !p ? "none" : !p->v ? "empty" : "v" + std::to_string(*p->v);
}

// Fulfils an already fulfilled promise, or takes from a consumed future, in a child process.
bool Refused(std::function<void()> f) {
  tr->flush();
  pid_t c = fork();
  if (c == 0) {
    freopen("/dev/null", "w", stderr);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

void FutureRun(uint64_t seed) {
  Rng g(seed);
  (*tr)(Ev("reset"));
  int kind = g.in(0, 5);
  auto pair = fcp::thread::MakeFuture<Payload>();
  std::optional<Promise<Payload>> promise(std::move(pair.promise));
  std::optional<Future<Payload>> future(std::move(pair.future));
  std::unique_ptr<fcp::Scheduler> pool;
  int value = g.in(0, 99);
  std::string shown = "v" + std::to_string(value);
  std::vector<std::thread> ts;
  uint64_t s1 = g.u64();
  if (kind == 0) {
    // A value computed on a pool thread.
    pool = fcp::CreateThreadPoolScheduler(g.in(1, 3));
    promise.reset();
    future.reset();
    std::function<Payload()> fn = [value, shown, s1] {
      Rng h(s1);
      Pause(h);
      (*tr)(Ev("settle").s("v", shown));
      return Payload{std::make_unique<int>(value)};
    };
    future.emplace(fcp::thread::ScheduleFuture<Payload>(pool.get(), fn));
  } else {
    ts.emplace_back([&, s1, kind] {
      Rng h(s1);
      Pause(h);
      if (h.chance(30)) {  // moving a promise does not settle it
        Promise<Payload> tmp(std::move(*promise));
        Pause(h);
        promise.emplace(std::move(tmp));
      }
      if (kind == 1 || kind == 2 || kind == 5) {
        (*tr)(Ev("settle").s("v", shown));
        std::move(*promise).Set(Payload{std::make_unique<int>(value)});
        (*tr)(Ev("settleret"));
        if (h.chance(50)) promise.reset();
      } else if (kind == 3) {
        (*tr)(Ev("settle").s("v", "none"));
        promise.reset();
        (*tr)(Ev("settleret"));
      } else {
        // Replaced by another promise.
        auto other = fcp::thread::MakeFuture<Payload>();
        (*tr)(Ev("settle").s("v", "none"));
        *promise = std::move(other.promise);
        (*tr)(Ev("settleret"));
      }
    });
  }
  // Waiting threads share the future.
  int waiters = g.in(0, 3);
  std::vector<std::thread> ws;
  for (int k = 0; k < waiters; ++k) {
    uint64_t sd = g.u64();
    ws.emplace_back([&, sd, k] {
      Rng h(sd);
      std::string n = "w" + std::to_string(k);
      int rounds = h.in(1, 3);
      for (int i = 0; i < rounds; ++i) {
        Pause(h);
        bool inf = h.chance(30);
        absl::Duration d = inf ? absl::InfiniteDuration() : absl::Microseconds(h.chance(50) ? 0 : h.in(1, 80));
        (*tr)(Ev("wait").s("k", n).b("inf", inf));
        bool r = future->Wait(d);
        (*tr)(Ev("waitret").s("k", n).b("r", r));
      }
    });
  }
  bool early = g.chance(50);
  if (!early) for (auto& t : ws) t.join();
  // Taking consumes the future, so other users of it are waited for.
  if (early) for (auto& t : ws) t.join();
  bool take = g.chance(85);
  if (take) {
    Pause(g);
    (*tr)(Ev("take"));
    auto v = std::move(*future).Take();
    (*tr)(Ev("takeret").s("v", Show(v)));
  } else if (g.chance(50)) {
    future.reset();  // nobody will look
  }
  for (auto& t : ts) t.join();
  if (pool) {
    pool->WaitUntilIdle();
    (*tr)(Ev("settleret"));
  }
  if (kind == 5 && promise && g.chance(25)) {
    (*tr)(Ev("again").b("refused", Refused([&] { std::move(*promise).Set(Payload{std::make_unique<int>(7)}); })));
    if (take)
      (*tr)(Ev("again").b("refused", Refused([&] { (void)std::move(*future).Take(); })));
  }
  (*tr)(Ev("done"));
}

}  // namespace

int main(int argc, char** argv) {
  tr = new verif::Trace(argv[1]);
  uint64_t seed = atoll(argv[2]);
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  for (int r = 0; r < runs; ++r) {
    uint64_t s = seed * 100003 + r;
    if (mode == "pool") PoolRun(s);
    else if (mode == "rely") RelyRun(s);
    else if (mode == "step") StepRun(s);
    else FutureRun(s);
  }
  tr->flush();
  return 0;
}
