// Drives InterruptibleRunner; every run is a child process.
// usage: d_interrupt <trace> <seed> <runs> <mode: one|many>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <map>
#include <thread>

#include "fcp/client/interruptible_runner.h"
#include "harness.h"

using namespace fcp::client;
using verif::Ev;
using verif::Rng;

namespace {

int fd = -1;
std::mutex& mu = *new std::mutex;
std::condition_variable& cv = *new std::condition_variable;
std::chrono::steady_clock::time_point t0;
int Ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); }
// Callers hold mu.
void Line(const Ev& e) {
  std::string s = e.str() + "\n";
  if (write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) _exit(3);
}

thread_local std::string current;  // the call this thread waits for
struct CallState {
  bool started = false, hooked = false, late = false;
};
std::map<std::string, CallState>& calls = *new std::map<std::string, CallState>;
const ProdDiagCode kDiags[4] = {
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXECUTION,
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXECUTION_TIMED_OUT,
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXTENDED_EXECUTION_COMPLETED,
    ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_TF_EXTENDED_EXECUTION_TIMED_OUT};

struct Log : LogManager {
  void LogDiag(ProdDiagCode c) override {
    std::lock_guard<std::mutex> l(mu);
    int k = 0;
    for (int i = 0; i < 4; ++i)
      if (kDiags[i] == c) k = i + 1;
    Line(Ev("diag").s("c", current).i("k", k).i("t", Ms()));
    if (k == 2) calls[current].late = true;
    cv.notify_all();
  }
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

// What a body does and when aborts are asked for.
enum Kind { kQuick, kSleep, kTillHook, kTillHookThenSleep, kTillLate, kNever };
struct Plan {
  Kind kind;
  int ms;
  int code;
  int ask;  // 0: never, 1: before the call, 2: once the body runs, 3: after some polls, 4: at random
  int polls;
};

struct Config {
  int poll, grace, ext;
};

void OneCall(InterruptibleRunner& r, const std::string& c, Plan p) {
  current = c;
  {
    std::lock_guard<std::mutex> l(mu);
    calls[c];
    Line(Ev("run").s("c", c));
  }
  absl::Status want(static_cast<absl::StatusCode>(p.code), p.code ? "text of " + c : "");
  absl::Status got = r.Run(
      [c, p, want]() -> absl::Status {
        std::unique_lock<std::mutex> l(mu);
        Line(Ev("start").s("c", c));
        calls[c].started = true;
        switch (p.kind) {
          case kQuick:
            break;
          case kSleep:
            l.unlock();
            std::this_thread::sleep_for(std::chrono::milliseconds(p.ms));
            l.lock();
            break;
          case kTillHook:
            cv.wait(l, [&] { return calls[c].hooked; });
            break;
          case kTillHookThenSleep:
            cv.wait(l, [&] { return calls[c].hooked; });
            l.unlock();
            std::this_thread::sleep_for(std::chrono::milliseconds(p.ms));
            l.lock();
            break;
          case kTillLate:
            cv.wait(l, [&] { return calls[c].late; });
            break;
          case kNever:
            cv.wait(l, [&] { return false; });
        }
        Line(Ev("end").s("c", c).s("r", verif::CodeName(want.code())));
        return want;
      },
      [c] {
        std::lock_guard<std::mutex> l(mu);
        Line(Ev("hook").s("c", c).i("t", Ms()));
        calls[c].hooked = true;
        cv.notify_all();
      });
  std::lock_guard<std::mutex> l(mu);
  Line(Ev("ret").s("c", c).s("r", verif::CodeName(got.code())).b("own", got == want));
}

std::map<std::string, Plan>& plans = *new std::map<std::string, Plan>;
std::map<std::string, int>& polled = *new std::map<std::string, int>;

int Child(uint64_t seed, bool many) {
  Rng g(seed);
  Config cfg;
  cfg.poll = g.in(1, 4);
  bool hard = g.chance(25);          // bodies that never end
  bool late = hard || g.chance(35);  // bodies that end only after the first period
  bool race = !late && g.chance(40);
  cfg.grace = late || race ? g.in(1, 8) : 30000;
  cfg.ext = hard ? g.in(1, 8) : 30000;
  Line(Ev("reset").i("g", cfg.grace).i("x", cfg.ext));
  t0 = std::chrono::steady_clock::now();
  Log log;
  auto mkplan = [&](bool last) {
    Plan p;
    p.code = g.chance(50) ? 0 : g.in(1, 16);
    p.ms = g.in(0, race ? 16 : 6);
    int k = g.in(0, 9);
    p.kind = k < 2 ? kQuick : k < 4 ? kSleep : k < 6 ? kTillHook : k < 8 ? kTillHookThenSleep : late ? kTillLate : kTillHook;
    if (hard && last && !many) p.kind = kNever;
    p.polls = g.in(1, 5);
    p.ask = g.in(0, 4);
    if (p.ask == 0 && p.kind >= kTillHook) p.ask = g.in(1, 4);
    // A queued call whose predecessor takes its time may exhaust both periods.
    return p;
  };
  {
    auto r = std::make_unique<InterruptibleRunner>(
        &log,
        [&]() -> bool {
          std::lock_guard<std::mutex> l(mu);
          const Plan& p = plans[current];
          int n = polled[current]++;
          bool a = false;
          switch (p.ask) {
            case 1:
              a = true;
              break;
            case 2:
              a = calls[current].started;
              break;
            case 3:
              a = n >= p.polls;
              break;
            case 4:
              a = n > 0 && (seed * 2654435761u + n * 40503u) % 7 == 0;
              break;
          }
          Line(Ev("poll").s("c", current).b("r", a));
          return a;
        },
        InterruptibleRunner::TimingConfig{absl::Milliseconds(cfg.poll), absl::Milliseconds(cfg.grace),
                                          absl::Milliseconds(cfg.ext)},
        InterruptibleRunner::DiagnosticsConfig{kDiags[0], kDiags[1], kDiags[2], kDiags[3]});
    int threads = many ? g.in(2, 3) : 1, per = g.in(1, many ? 3 : 4);
    for (int t = 0; t < threads; ++t)
      for (int i = 0; i < per; ++i) plans["c" + std::to_string(t) + std::to_string(i)] = mkplan(i == per - 1);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        for (int i = 0; i < per; ++i) {
          std::string c = "c" + std::to_string(t) + std::to_string(i);
          OneCall(*r, c, plans[c]);
        }
      });
    for (auto& t : ts) t.join();
    r.reset();
    std::lock_guard<std::mutex> l(mu);
    Line(Ev("free"));
  }
  return 7;
}

}  // namespace

int main(int argc, char** argv) {
  if (argc != 5) return 3;
  fd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) return 3;
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int runs = atoi(argv[3]);
  bool many = std::string(argv[4]) == "many";
  std::vector<pid_t> kids;
  for (int i = 0; i < runs; ++i) {
    pid_t p = fork();
    if (p == 0) _exit(Child(seed * 100003 + i * 2 + many, many));
    int st = 0;
    bool ended = false;
    for (int w = 0; w < 20000 && !ended; ++w) {
      ended = waitpid(p, &st, WNOHANG) == p;
      if (!ended) usleep(1000);
    }
    if (!ended) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      Line(Ev("hang"));
    } else if (WIFSIGNALED(st)) {
      Line(Ev("crash").i("sig", WTERMSIG(st)));
    } else if (WEXITSTATUS(st) == 3) {
      return 3;
    } else if (WEXITSTATUS(st) != 7) {
      Line(Ev("exit").i("code", WEXITSTATUS(st)));
    }
  }
  return 0;
}
