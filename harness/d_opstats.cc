// Drives the operational statistics store and its logger in child processes.
// usage: d_opstats <trace> <seed> <runs> <mode: plain|fault|crash>
#include <sys/mman.h>
#include <sys/wait.h>

#include <fstream>
#include <functional>

#include "fcp/client/flags.h"
#include "fcp/client/log_manager.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "fsfault.h"
#include "google/protobuf/util/time_util.h"
#include "harness.h"
#include "vclock.h"

using namespace fcp::client;
using namespace fcp::client::opstats;
using google::protobuf::util::TimeUtil;
using verif::Ev;
using verif::Rng;
namespace fs = std::filesystem;

namespace {

struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};
struct TheFlags : Flags {
  bool phases;
  int64_t condition_polling_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return false; }
  bool enable_phase_stats_logging() const override { return phases; }
};

struct Shared {
  int64_t now;  // ms
  int serial;
  int64_t latest;
};
Shared* sh;

int64_t Rel(const google::protobuf::Timestamp& t) { return TimeUtil::TimestampToMilliseconds(t) - vclock::kBase * 1000; }

std::string Entry(const OperationalStats& s) {
  int64_t first = -1, last = -1;
  auto see = [&](const google::protobuf::Timestamp& t) {
    if (first < 0 || Rel(t) < first) first = Rel(t);
    if (Rel(t) > last) last = Rel(t);
  };
  for (auto& e : s.events()) see(e.timestamp());
  for (auto& p : s.phase_stats())
    for (auto& e : p.events()) see(e.timestamp());
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s.DebugString()) h = (h ^ c) * 1099511628211ull;
  int64_t n = s.ByteSizeLong();
  Ev e("x");
  e.s("r", s.session_name()).i("k", h % 1000000007).i("t", last).i("a", first).i("sz", n + (n < 128 ? 2 : n < 16384 ? 3 : 4));
  return e.str();
}
std::string List(const OpStatsSequence& s) {
  std::string r = "[";
  for (auto& e : s.opstats()) r += (r.size() > 1 ? "," : "") + Entry(e);
  return r + "]";
}
// Events of an entry: which phase (0: none) and which kind.
std::string Events(const OperationalStats& s) {
  std::string r;
  auto add = [&](int p, int k) { r += (r.empty() ? "" : ",") + Ev("x").i("p", p).i("k", k).str(); };
  for (auto& e : s.events()) add(0, e.event_type());
  int p = 0;
  for (auto& ph : s.phase_stats()) {
    ++p;
    for (auto& e : ph.events()) add(p, e.event_type());
  }
  return "[" + r + "]";
}

struct Armer {
  Rng* g;
  int mode;
  void On(const std::string& crash) {
    fsf::fired = false;
    fsf::countdown = mode && g->chance(mode == 2 ? 8 : 20) ? g->in(0, 5) : -1;
    fsf::crash = mode == 2;
    fsf::more = g->chance(30) ? g->in(1, 3) : 0;
    fsf::part = g->chance(20) ? ~0ull : g->u64();
    fsf::crash_event = crash;
    fsf::armed = true;
  }
  void Off() { fsf::armed = false; }
};

// Records what updates see and leave.
struct Spy : OpStatsDb {
  std::unique_ptr<OpStatsDb> in;
  Armer* arm;
  std::string run;  // the run on whose behalf updates happen
  ~Spy() override {
    in.reset();
    fsf::Line(Ev("close").str());
  }
  absl::StatusOr<OpStatsSequence> Read() override {
    arm->On(Ev("died").s("op", "read").i("now", sh->now).str());
    auto r = in->Read();
    arm->Off();
    Ev e("read");
    e.i("now", sh->now).b("f", fsf::fired).s("ret", verif::CodeName(r.status().code()));
    if (r.ok()) e.raw("db", List(*r)).i("ett", Rel(r->earliest_trustworthy_time()));
    fsf::Line(e.str());
    return r;
  }
  absl::Status Transform(std::function<void(OpStatsSequence&)> f) override {
    bool called = false;
    std::string before = "[]", after = "[]", evs = "[]";
    auto event = [&](const char* name) {
      Ev e(name);
      return e.s("op", "tx").i("now", sh->now).s("r", run).b("called", called).raw("before", before).raw("after", after).raw("evs", evs);
    };
    arm->On(event("died").str());
    absl::Status s = in->Transform([&](OpStatsSequence& d) {
      before = List(d);
      f(d);
      called = true;
      after = List(d);
      if (d.opstats_size()) evs = Events(d.opstats(d.opstats_size() - 1));
      fsf::crash_event = event("died").str();
    });
    arm->Off();
    bool fired = fsf::fired;
    Ev e = event("tx");
    e.b("f", fired).s("ret", verif::CodeName(s.code()));
    auto r = s.ok() ? in->Read() : OpStatsSequence();
    e.s("rret", verif::CodeName(r.status().code())).raw("db", List(r.ok() ? *r : OpStatsSequence()));
    e.i("ett", r.ok() && r->has_earliest_trustworthy_time() ? Rel(r->earliest_trustworthy_time()) : -9);
    fsf::Line(e.str());
    return s;
  }
};

struct Session {
  Rng g;
  int mode;
  std::string root;
  int64_t ttl, max;
  Log log;
  Armer arm;

  void Pass() { sh->now += g.chance(30) ? 0 : g.chance(80) ? g.in(1, 4000) : g.in(4000, 30000); }
  absl::StatusOr<std::unique_ptr<OpStatsDb>> Open(bool quiet) {
    if (!quiet) arm.On(Ev("died").s("op", "open").i("now", sh->now).str());
    auto r = PdsBackedOpStatsDb::Create(root + "/base", absl::Milliseconds(ttl), log, max);
    arm.Off();
    Ev e("open");
    e.i("now", sh->now).b("f", !quiet && fsf::fired).s("ret", verif::CodeName(r.status().code()));
    fsf::Line(e.str());
    return r;
  }

  // Another process that tries to open the store when asked to.
  int ask[2], answer[2];
  pid_t helper = 0;
  void StartHelper() {
    if (pipe(ask) || pipe(answer)) _exit(3);
    helper = fork();
    if (helper) return;
    close(ask[1]);
    char c;
    while (::read(ask[0], &c, 1) == 1 && c == 'o') {
      auto r = PdsBackedOpStatsDb::Create(root + "/base", absl::Milliseconds(ttl), log, max);
      c = r.ok() ? 'y' : 'n';
      if (r.ok()) r->reset();
      if (::write(answer[1], &c, 1) != 1) break;
    }
    _exit(0);
  }
  void AskHelper() {
    if (!helper) return;
    char c = 'o';
    if (::write(ask[1], &c, 1) != 1 || ::read(answer[0], &c, 1) != 1) _exit(3);
    fsf::Line(Ev("open2").s("ret", c == 'y' ? "OK" : "BUSY").i("now", sh->now).str());
  }

  int Run() {
    arm = {&g, mode};
    if (g.chance(25)) StartHelper();
    int rounds = g.in(1, 4);
    for (int k = 0; k < rounds; ++k) {
      Pass();
      auto r = Open(false);
      if (!r.ok()) continue;
      if (g.chance(20)) {
        auto second = Open(true);
        if (second.ok()) second->reset();
      }
      if (g.chance(50)) AskHelper();
      auto spy = std::make_unique<Spy>();
      spy->in = *std::move(r);
      spy->arm = &arm;
      if (g.chance(60)) Logged(std::move(spy));
      else Direct(std::move(spy));
      if (g.chance(50)) AskHelper();
    }
    if (helper) {
      close(ask[1]);
      int st;
      waitpid(helper, &st, 0);
    }
    return 0;
  }

  void Direct(std::unique_ptr<Spy> spy) {
    int ops = g.in(1, 8);
    for (int k = 0; k < ops; ++k) {
      Pass();
      if (g.chance(30)) {
        auto ignored = spy->Read();
        continue;
      }
      OperationalStats s;
      s.set_session_name("d" + std::to_string(sh->serial++));
      s.set_error_message(std::string(g.in(0, max / 4), 'e'));
      int n = g.in(0, 3);
      int64_t t = std::max<int64_t>(sh->latest, sh->now - g.in(0, 3000));
      bool ph = g.chance(40);
      auto* p = ph ? s.add_phase_stats() : nullptr;
      if (p) p->set_phase(OperationalStats::PhaseStats::CHECKIN);
      for (int i = 0; i < n; ++i) {
        auto* e = p ? p->add_events() : s.add_events();
        e->set_event_type(OperationalStats::Event::EVENT_KIND_CHECKIN_STARTED);
        t = std::min<int64_t>(sh->now, t + g.in(0, 500));
        *e->mutable_timestamp() = TimeUtil::MillisecondsToTimestamp((vclock::kBase * 1000 + t) / 1000 * 1000);
        sh->latest = std::max(sh->latest, t);
      }
      if (p && g.chance(30)) s.add_phase_stats()->set_phase(OperationalStats::PhaseStats::UPLOAD);
      auto ignored = spy->Transform([&](OpStatsSequence& d) { *d.add_opstats() = s; });
    }
  }

  void Logged(std::unique_ptr<Spy> spy) {
    Spy* raw = spy.get();
    TheFlags flags;
    flags.phases = g.chance(60);
    raw->run = "r" + std::to_string(sh->serial++);
    std::string run = raw->run;
    fsf::Line(Ev("run").s("r", run).str());
    OpStatsLoggerImpl logger(std::move(spy), &log, &flags, run, "pop");
    int ops = g.in(0, 14), phase = 0;
    bool in_phase = false;
    for (int k = 0; k < ops; ++k) {
      if (g.chance(60)) Pass();
      int what = g.in(0, 9);
      // Events outside any phase occur only before the first one.
      if (what < 5 && phase > 0 && !in_phase) continue;
      auto kind = static_cast<OperationalStats::Event::EventKind>(g.in(1, 6));
      auto logged = [&] {
        fsf::Line(Ev("log").s("r", run).raw("k", Ev("x").i("p", flags.phases && in_phase ? phase : 0).i("k", kind).str()).str());
        sh->latest = sh->now;
      };
      if (what < 3) {
        logger.AddEvent(kind);
        logged();
      } else if (what == 3) {
        logger.AddEventAndSetTaskName("t" + std::to_string(k), kind);
        logged();
      } else if (what == 4) {
        logger.AddEventWithErrorMessage(kind, std::string(g.in(0, max / 5), 'm'));
        logged();
      } else if (what == 5) {
        logger.UpdateDatasetStats("app:/x" + std::to_string(g.in(0, 2)), g.in(0, 5), g.in(0, 50));
      } else if (what == 6) {
        if (flags.phases) {
          ++phase;
          in_phase = true;
          logger.StartLoggingForPhase(static_cast<OperationalStats::PhaseStats::Phase>(g.in(1, 6)));
        }
      } else if (what == 7) {
        logger.StopLoggingForTheCurrentPhase();
        in_phase = false;
      } else {
        auto ignored = logger.CommitToStorage();
        if (g.chance(20)) auto r = raw->Read();
      }
    }
  }
};

}  // namespace

int main(int argc, char** argv) {
  if (argc != 5) return 3;
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  fsf::fd = open(argv[1], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (fsf::fd < 0) return 3;
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  vclock::ms = &sh->now;
  fsf::root = fs::absolute(std::string(argv[1]) + ".dir").string();
  for (int run = 0; run < runs; ++run) {
    Rng g(seed * 100003 + run);
    fs::remove_all(fsf::root);
    fs::create_directories(fsf::root);
    memset(sh, 0, sizeof *sh);
    sh->now = 100000 + g.in(0, 5000);
    int64_t ttl = g.chance(50) ? g.in(2000, 30000) : 10000000, max = g.in(60, 1500);
    if (g.chance(30)) max = 100000;
    fsf::Line(Ev("reset").i("ttl", ttl).i("max", max).str());
    int sessions = g.in(1, mode == "crash" ? 8 : 4);
    for (int s = 0; s < sessions; ++s) {
      uint64_t cs = g.u64();
      pid_t pid = fork();
      if (pid < 0) return 3;
      if (pid == 0) {
        Session x{Rng(cs), mode == "plain" ? 0 : mode == "fault" ? 1 : 2, fsf::root, ttl, max};
        _exit(x.Run());
      }
      int st;
      waitpid(pid, &st, 0);
      if (WIFSIGNALED(st)) {
        fprintf(stderr, "killed by signal %d\n", WTERMSIG(st));
        raise(WTERMSIG(st));
        return 1;
      }
      if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77) return WEXITSTATUS(st);
      fsf::Line(Ev("exit").str());
      if (g.chance(15)) {  // the file is damaged from outside
        for (auto& f : fs::recursive_directory_iterator(fsf::root)) {
          if (!f.is_regular_file()) continue;
          if (g.chance(50)) fs::resize_file(f.path(), g.in(0, fs::file_size(f.path()) / 2));
          else std::ofstream(f.path()) << "garbage" << g.u64();
        }
        fsf::Line(Ev("corrupt").str());
      }
    }
  }
  fs::remove_all(fsf::root);
  return 0;
}
