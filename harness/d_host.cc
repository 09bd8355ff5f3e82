// Drives the registry of host objects and the stopwatch from several threads.
// usage: d_host <trace> <seed> <runs> <mode: objects|storm|watch>
#include <array>
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "absl/time/clock.h"
#include "fcp/base/random_token.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/tensorflow/host_object.h"
#include "harness.h"

using fcp::HostObjectRegistration;
using fcp::HostObjectRegistry;
using fcp::RandomToken;
using fcp::WallClockStopwatch;
using verif::Ev;
using verif::Rng;

namespace {

constexpr int kThreads = 3;

// Lets the threads of a run begin together.
struct Gate {
  std::atomic<int> left{kThreads};
  void Pass() {
    left--;
    while (left > 0) std::this_thread::yield();
  }
};

// ---- objects -------------------------------------------------------------------
struct Left {
  virtual ~Left() = default;
  virtual int LeftId() const = 0;
};
struct Right {
  virtual ~Right() = default;
  virtual int RightId() const = 0;
};

// A registration with the number it has in the trace.
struct Slot {
  std::mutex mu;
  std::optional<HostObjectRegistration> reg;
  int r = 0;
};

struct Run {
  verif::Trace& log;
  std::atomic<int> next_obj{1}, next_reg{1};
  std::mutex mu;
  std::map<std::string, int> ids;
  // Those of registrations that have returned.
  std::vector<std::string> tokens;

  // The number of a token; a token never seen before gets the next one.
  int Number(const std::string& bytes) {
    std::lock_guard<std::mutex> l(mu);
    return ids.insert({bytes, static_cast<int>(ids.size()) + 1}).first->second;
  }
};

struct Obj : Left, Right {
  Obj(Run& run, int id) : run(run), id(id) {}
  ~Obj() override {
    run.log(Ev("gone").i("o", id));
    if (part) {
      run.log(Ev("drop_call").i("r", part_r));
      part.reset();
      run.log(Ev("drop_ret").i("r", part_r));
    }
  }
  int LeftId() const override { return id; }
  int RightId() const override { return id; }
  Run& run;
  int id;
  // An object may keep others registered for as long as it lives.
  std::optional<HostObjectRegistration> part;
  int part_r = 0;
};

HostObjectRegistration Register(Run& run, std::shared_ptr<Obj> o, int kind, int& r) {
  r = run.next_reg++;
  run.log(Ev("reg_call").i("r", r).i("o", o->id).i("k", kind));
  auto give = [&] {
    if (kind == 1) return HostObjectRegistry<Left>::Register(std::move(o));
    return HostObjectRegistry<Right>::Register(std::move(o));
  };
  HostObjectRegistration reg = give();
  std::string token = reg.token().ToString();
  run.log(Ev("reg_ret").i("r", r).i("tok", run.Number(token)));
  std::lock_guard<std::mutex> l(run.mu);
  run.tokens.push_back(token);
  return reg;
}

struct Worker {
  Run& run;
  std::vector<Slot>& slots;
  Rng rng;
  int t;
  std::vector<std::shared_ptr<Left>> lefts;
  std::vector<std::shared_ptr<Right>> rights;

  std::shared_ptr<Obj> Make() {
    auto o = std::make_shared<Obj>(run, run.next_obj++);
    if (rng.chance(20)) {
      int r;
      auto inner = std::make_shared<Obj>(run, run.next_obj++);
      o->part.emplace(Register(run, std::move(inner), static_cast<int>(rng.in(1, 2)), r));
      o->part_r = r;
    }
    return o;
  }

  void Drop(Slot& s) {
    run.log(Ev("drop_call").i("r", s.r));
    s.reg.reset();
    run.log(Ev("drop_ret").i("r", s.r));
  }

  void Same(const std::string& a, const std::string& b) {
    RandomToken x = RandomToken::FromBytes(a), y = RandomToken::FromBytes(b);
    std::array<char, fcp::kRandomTokenSizeInBytes> c = y.ToBytes();
    run.log(Ev("same").i("a", run.Number(a)).i("b", run.Number(b)).b("eq", x == y).b("ne", x != y)
                .b("round", std::string(c.data(), c.size()) == b && y.ToString() == b));
  }

  void Look() {
    std::string bytes;
    {
      std::lock_guard<std::mutex> l(run.mu);
      if (!run.tokens.empty() && !rng.chance(10))
        bytes = run.tokens[rng.chance(60) ? run.tokens.size() - 1 - rng.in(0, std::min<int>(4, run.tokens.size() - 1))
                                          : rng.in(0, run.tokens.size() - 1)];
    }
    if (bytes.empty()) bytes = RandomToken::Generate().ToString();
    std::string other = bytes;
    if (rng.chance(10)) other[rng.in(0, 15)] ^= 1 << rng.in(0, 7);
    Same(bytes, other);
    bytes = other;
    int kind = static_cast<int>(rng.in(1, 2));
    int tok = run.Number(bytes);
    RandomToken token = RandomToken::FromBytes(bytes);
    run.log(Ev("look_call").i("t", t).i("tok", tok).i("k", kind));
    int found = 0;
    if (kind == 1) {
      auto p = HostObjectRegistry<Left>::TryLookup(token);
      if (p) found = (*p)->LeftId(), lefts.push_back(*std::move(p));
    } else {
      auto p = HostObjectRegistry<Right>::TryLookup(token);
      if (p) found = (*p)->RightId(), rights.push_back(*std::move(p));
    }
    run.log(Ev("look_ret").i("t", t).i("o", found));
  }

  template <class V, class F>
  void Release(V& v, F id) {
    if (v.empty()) return;
    size_t i = rng.in(0, v.size() - 1);
    run.log(Ev("rel").i("o", id(*v[i])));
    auto p = std::move(v[i]);
    v.erase(v.begin() + i);
    p.reset();
  }
  void ReleaseOne() {
    if (rng.chance(50)) Release(lefts, [](Left& x) { return x.LeftId(); });
    else Release(rights, [](Right& x) { return x.RightId(); });
  }

  void Step() {
    int what = static_cast<int>(rng.in(1, 100));
    if (what <= 45) return Look();
    if (what <= 55) return ReleaseOne();
    int i = static_cast<int>(rng.in(0, slots.size() - 1)), j = static_cast<int>(rng.in(0, slots.size() - 1));
    if (i > j) std::swap(i, j);
    Slot &a = slots[i], &b = slots[j];
    std::lock_guard<std::mutex> la(a.mu);
    if (what <= 75) {
      int kind = static_cast<int>(rng.in(1, 2)), r = 0;
      std::shared_ptr<Obj> o = Make();
      // The same object may be registered twice.
      if (i != j && rng.chance(20)) {
        std::lock_guard<std::mutex> lb(b.mu);
        if (b.reg) Drop(b);
        int r2 = 0;
        std::shared_ptr<Obj> same = o;
        b.reg.emplace(Register(run, std::move(same), static_cast<int>(rng.in(1, 2)), r2));
        b.r = r2;
      }
      HostObjectRegistration reg = Register(run, std::move(o), kind, r);
      if (a.reg && rng.chance(50)) {
        run.log(Ev("drop_call").i("r", a.r));
        *a.reg = std::move(reg);
        run.log(Ev("drop_ret").i("r", a.r));
      } else {
        if (a.reg) Drop(a);
        a.reg.emplace(std::move(reg));
      }
      a.r = r;
    } else if (what <= 88) {
      if (a.reg) Drop(a);
    } else if (i != j) {
      std::lock_guard<std::mutex> lb(b.mu);
      Slot *from = &a, *to = &b;
      if (rng.chance(50)) std::swap(from, to);
      if (!from->reg) return;
      if (to->reg) {
        run.log(Ev("drop_call").i("r", to->r));
        *to->reg = std::move(*from->reg);
        run.log(Ev("drop_ret").i("r", to->r));
      } else {
        to->reg.emplace(std::move(*from->reg));
      }
      from->reg.reset();
      to->r = from->r;
      from->r = 0;
      run.log(Ev("token").i("r", to->r).i("tok", run.Number(to->reg->token().ToString())));
    }
  }
};

void Objects(verif::Trace& log, Rng& rng) {
  log(Ev("reset"));
  Run run{log};
  std::vector<Slot> slots(4);
  std::vector<std::unique_ptr<Worker>> w;
  for (int t = 1; t <= kThreads; t++) w.push_back(std::make_unique<Worker>(Worker{run, slots, Rng(rng.u64()), t, {}, {}}));
  int phases = static_cast<int>(rng.in(1, 3)), steps = static_cast<int>(rng.in(2, 10));
  for (int p = 0; p < phases; p++) {
    Gate ready;
    std::vector<std::thread> ts;
    for (int t = 0; t < kThreads; t++)
      ts.emplace_back([&, t] {
        ready.Pass();
        for (int i = 0; i < steps; i++) w[t]->Step();
      });
    for (auto& t : ts) t.join();
    log(Ev("quiet"));
  }
  for (auto& s : slots)
    if (s.reg) w[0]->Drop(s);
  log(Ev("quiet"));
  for (auto& x : w)
    while (!x->lefts.empty() || !x->rights.empty()) x->ReleaseOne();
  log(Ev("quiet"));
}

// Threads in a hurry, each with registrations of its own: what one of them sees
// is noted and told when all are done.
void Storm(verif::Trace& log, Rng& rng) {
  struct Plain : Left {
    explicit Plain(int id) : id(id) {}
    int LeftId() const override { return id; }
    int id;
  };
  struct Note {
    int kind, r;
    std::string token;
  };
  log(Ev("reset"));
  Run run{log};
  constexpr int kEach = 40;
  std::vector<std::vector<Note>> notes(kThreads + 1);
  Gate ready;
  std::vector<std::thread> ts;
  for (int t = 1; t <= kThreads; t++) {
    uint64_t seed = rng.u64();
    ts.emplace_back([&, t, seed] {
      Rng r(seed);
      std::vector<Note>& mine = notes[t];
      mine.reserve(kEach * 8);
      std::vector<std::pair<int, HostObjectRegistration>> regs;
      auto look = [&](RandomToken token, bool far) {
        std::string bytes = token.ToString();
        if (far) bytes[r.in(0, 15)] ^= 1 << r.in(0, 7);
        auto p = HostObjectRegistry<Left>::TryLookup(RandomToken::FromBytes(bytes));
        mine.push_back({p ? (*p)->LeftId() : 0, -1, bytes});
      };
      ready.Pass();
      for (int i = 0; i < kEach; i++) {
        int id = t * 1000 + i;
        regs.emplace_back(id, HostObjectRegistry<Left>::Register(std::make_shared<Plain>(id)));
        mine.push_back({1, id, regs.back().second.token().ToString()});
        look(regs[r.in(0, regs.size() - 1)].second.token(), false);
        look(regs.back().second.token(), true);
        if (r.chance(50)) {
          size_t j = r.in(0, regs.size() - 1);
          RandomToken token = regs[j].second.token();
          std::swap(regs[j], regs.back());
          mine.push_back({2, regs.back().first, ""});
          regs.pop_back();
          look(token, false);
        }
      }
      while (!regs.empty()) {
        mine.push_back({2, regs.back().first, ""});
        regs.pop_back();
      }
    });
  }
  for (auto& t : ts) t.join();
  for (int t = 1; t <= kThreads; t++)
    for (const Note& n : notes[t]) {
      if (n.r < 0) {
        log(Ev("look_call").i("t", t).i("tok", run.Number(n.token)).i("k", 1));
        log(Ev("look_ret").i("t", t).i("o", n.kind));
        if (n.kind) log(Ev("rel").i("o", n.kind));
      } else if (n.kind == 1) {
        log(Ev("reg_call").i("r", n.r).i("o", n.r).i("k", 1));
        log(Ev("reg_ret").i("r", n.r).i("tok", run.Number(n.token)));
      } else {
        log(Ev("drop_call").i("r", n.r));
        log(Ev("drop_ret").i("r", n.r));
      }
    }
}

// ---- stopwatch -----------------------------------------------------------------
void Watch(verif::Trace& log, Rng& rng) {
  bool real = !rng.chance(10);
  log(Ev("reset"));
  std::unique_ptr<WallClockStopwatch> watch = real ? WallClockStopwatch::Create() : WallClockStopwatch::CreateNoop();
  absl::Time zero = absl::Now();
  std::mutex mu;
  // The time of an event is taken in the order of the events.
  auto put = [&](const char* e, int t, long long v = -1) {
    std::lock_guard<std::mutex> l(mu);
    Ev ev(e);
    ev.i("t", t).i("at", absl::ToInt64Microseconds(absl::Now() - zero));
    if (v >= 0) ev.i("v", v);
    log(ev);
  };
  {
    std::lock_guard<std::mutex> l(mu);
    log(Ev("new").b("real", real));
  }
  int steps = static_cast<int>(rng.in(3, 8)), calm = static_cast<int>(rng.in(0, 2));
  Gate ready;
  std::vector<std::thread> ts;
  for (int t = 1; t <= kThreads; t++) {
    uint64_t seed = rng.u64();
    ts.emplace_back([&, t, seed] {
      Rng r(seed);
      auto nap = [&] {
        if (r.chance(calm * 40)) std::this_thread::sleep_for(std::chrono::microseconds(r.in(1, 8) * 200));
      };
      auto total = [&] {
        put("total_call", t);
        absl::Duration d = watch->GetTotalDuration();
        put("total_ret", t, d < absl::ZeroDuration() || d > absl::Hours(1) ? 2000000000 : absl::ToInt64Microseconds(d));
      };
      ready.Pass();
      for (int i = 0; i < steps; i++) {
        nap();
        if (r.chance(40)) {
          total();
          continue;
        }
        put("start_call", t);
        if (r.chance(30)) {
          // In a hurry: somewhere in here it runs and stands still many times.
          for (int k = 0; k < 200; k++) WallClockStopwatch::Handle h = watch->Start();
          put("start_ret", t);
          put("stop_call", t);
        } else {
          WallClockStopwatch::Handle h = watch->Start();
          put("start_ret", t);
          nap();
          if (r.chance(40)) total();
          nap();
          put("stop_call", t);
        }
        put("stop_ret", t);
      }
    });
  }
  for (auto& t : ts) t.join();
  for (int i = 0; i < 2; i++) {
    put("total_call", 1);
    absl::Duration d = watch->GetTotalDuration();
    put("total_ret", 1, d < absl::ZeroDuration() || d > absl::Hours(1) ? 2000000000 : absl::ToInt64Microseconds(d));
    if (i == 0) std::this_thread::sleep_for(std::chrono::microseconds(600));
  }
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  verif::Trace log(argv[1]);
  Rng rng(strtoull(argv[2], nullptr, 10));
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  for (int i = 0; i < runs; i++) {
    if (mode == "objects") Objects(log, rng);
    else if (mode == "storm") Storm(log, rng);
    else if (mode == "watch") Watch(log, rng);
    else return 3;
  }
  return 0;
}
