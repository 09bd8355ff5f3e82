// Drives FileBackedResourceCache in child processes; file system calls made on
// its behalf fail or end the process at chosen points.
// usage: d_cache <trace> <seed> <runs> <mode: plain|fault|crash>
#include <sys/mman.h>
#include <sys/wait.h>

#include <cstring>
#include <filesystem>

#include "absl/strings/cord.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/cache/file_backed_resource_cache.h"
#include "fcp/client/log_manager.h"
#include "fsfault.h"
#include "harness.h"

using namespace fcp;
using namespace fcp::client;
using verif::Ev;
using verif::Rng;

namespace {

struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

// Survives the processes of one run.
struct Shared {
  int64_t now;  // ms
  int versions;
  int size[400];
};
Shared* sh;

std::string Content(int v) {
  Rng g(v + 77);
  std::string s(sh->size[v], 0);
  for (auto& c : s) c = static_cast<char>(g.in(0, 255));
  return s;
}
int Token(const std::string& s) {  // the first version with these bytes
  for (int v = 0; v < sh->versions; ++v)
    if (sh->size[v] == static_cast<int>(s.size()) && Content(v) == s) return v;
  return -1;
}

void List(const std::string& dir, int* n, int64_t* b) {
  *n = 0;
  *b = 0;
  std::error_code e;
  for (auto& f : std::filesystem::recursive_directory_iterator(dir, e))
    if (f.is_regular_file()) {
      ++*n;
      *b += f.file_size();
    }
}

struct Session {
  Rng g;
  std::string root;
  int mode;  // 0 plain, 1 fault, 2 crash
  int64_t max;
  SimulatedClock clock;
  Log log;
  std::vector<std::string> ids;

  void Arm(bool use, const Ev& crash) {
    fsf::fired = false;
    fsf::countdown = -1;
    if (use) {
      fsf::countdown = g.in(0, g.chance(50) ? 6 : 25);
      fsf::crash = mode == 2 || g.chance(20);
      fsf::more = g.chance(20) ? g.in(1, 4) : 0;
      fsf::part = g.u64();
      fsf::crash_event = crash.str();
    }
    fsf::armed = true;
  }
  void Disarm() { fsf::armed = false; }
  Ev& Tail(Ev& e) {
    int n;
    int64_t b;
    List(root + "/cache/fcp/cache", &n, &b);
    return e.b("f", fsf::fired).i("n", n).i("b", b);
  }
  void Pass() {
    int64_t d = g.chance(30) ? 0 : g.chance(80) ? g.in(1, 900) : g.in(900, 6000);
    sh->now += d;
    clock.AdvanceTime(absl::Milliseconds(d));
  }

  int Run(int ops, bool first) {
    clock.SetTime(absl::UnixEpoch() + absl::Milliseconds(sh->now));
    std::unique_ptr<cache::FileBackedResourceCache> c;
    for (int tries = 0; tries < 3 && !c; ++tries) {
      Pass();
      Ev ce("crash");
      ce.s("op", "open").i("now", sh->now);
      Arm(mode && tries == 0 && g.chance(25), ce);
      auto r = cache::FileBackedResourceCache::Create(root + "/base", root + "/cache", &log, &clock, max);
      Disarm();
      Ev e("open");
      e.i("now", sh->now).s("ret", verif::CodeName(r.status().code()));
      fsf::Line(Tail(e).str());
      if (r.ok()) c = *std::move(r);
    }
    if (!c) return 0;
    for (int k = 0; k < ops; ++k) {
      if (g.chance(70)) Pass();
      std::string id = g.pick(ids);
      bool use = mode && g.chance(mode == 2 ? 12 : 20);
      if (g.chance(45) && sh->versions < 400) {
        int64_t sz = g.chance(10) ? g.in(0, 3) : g.chance(10) ? max / 2 + g.in(-1, 2) : g.in(0, max / 2);
        if (g.chance(40)) sz = std::min<int64_t>(max / g.in(2, 5), sz);
        if (sz < 0) sz = 0;
        int v = sh->versions++;
        sh->size[v] = sz;
        std::string body = Content(v);
        absl::Cord cord;
        if (g.chance(40)) {
          for (size_t p = 0; p < body.size();) {
            size_t q = std::min<size_t>(body.size() - p, g.in(1, 1 + body.size()));
            cord.Append(absl::MakeCordFromExternal(absl::string_view(*new std::string(body.substr(p, q))), [] {}));
            p += q;
          }
        } else {
          cord = absl::Cord(body);
        }
        google::protobuf::Any any;
        std::string m = "m" + std::to_string(g.in(0, 5));
        any.set_type_url(m);
        any.set_value(m);
        int64_t age = g.chance(50) ? g.in(0, 1500) : g.in(1500, 30000);
        auto fill = [&](Ev& e) -> Ev& {
          return e.i("now", sh->now).s("id", id).i("d", Token(body)).s("m", m).i("sz", sz).i("age", age);
        };
        Ev ce("crash");
        ce.s("op", "put");
        Arm(use, fill(ce));
        absl::Status s = c->Put(id, cord, any, absl::Milliseconds(age));
        Disarm();
        Ev e("put");
        fill(e).s("ret", verif::CodeName(s.code()));
        fsf::Line(Tail(e).str());
      } else {
        int64_t age = g.chance(30) ? g.in(0, 8000) : -1;
        Ev ce("crash");
        ce.s("op", "get").i("now", sh->now).s("id", id).i("age", age);
        Arm(use, ce);
        auto r = c->Get(id, age < 0 ? std::nullopt : std::optional<absl::Duration>(absl::Milliseconds(age)));
        Disarm();
        int d = -2;
        std::string m;
        if (r.ok()) {
          d = Token(std::string(r->resource));
          m = r->metadata.value();
          if (m != r->metadata.type_url()) m = "?";
        }
        Ev e("get");
        e.i("now", sh->now).s("id", id).i("age", age).s("ret", verif::CodeName(r.status().code())).i("d", d).s("m", m);
        fsf::Line(Tail(e).str());
      }
    }
    return 0;
  }
};

}  // namespace

int main(int argc, char** argv) {
  if (argc != 5) return 3;
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  fsf::fd = open(argv[1], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (fsf::fd < 0) return 3;
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string root = std::string(argv[1]) + ".dir";
  fsf::root = root;
  for (int run = 0; run < runs; ++run) {
    Rng g(seed * 100003 + run);
    std::filesystem::remove_all(root);
    std::filesystem::create_directory(root);
    memset(sh, 0, sizeof *sh);
    sh->now = 1000;
    int64_t max = g.chance(70) ? g.in(40, 4000) : g.in(4000, 60000);
    std::vector<std::string> names = {"a", "b", "c d", "a.partial", "e", "a.partial_", "g\xc3\xbc", ".h"};
    names.resize(g.in(2, 6));
    fsf::Line(Ev("reset").i("max", max).str());
    int sessions = g.in(1, mode == "crash" ? 10 : 5);
    for (int s = 0; s < sessions; ++s) {
      uint64_t child_seed = g.u64();
      int ops = g.in(0, mode == "crash" ? 10 : 25);
      pid_t pid = fork();
      if (pid < 0) return 3;
      if (pid == 0) {
        Session x{Rng(child_seed), root, mode == "plain" ? 0 : mode == "fault" ? 1 : 2, max};
        x.ids = names;
        _exit(x.Run(ops, s == 0));
      }
      int st;
      waitpid(pid, &st, 0);
      if (WIFSIGNALED(st)) {
        fprintf(stderr, "killed by signal %d\n", WTERMSIG(st));
        raise(WTERMSIG(st));
        return 1;
      }
      if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77) return WEXITSTATUS(st);
      fsf::Line(Ev("exit").str());
    }
    std::filesystem::remove_all(root);
  }
  return 0;
}
