// Drives TempFiles in child processes over a scratch directory with bystanders.
// usage: d_temp <trace> <seed> <runs> <mode: plain|fault>
#include <sys/mman.h>
#include <sys/wait.h>

#include <fstream>
#include <map>

#include "fcp/client/cache/temp_files.h"
#include "fcp/client/log_manager.h"
#include "fsfault.h"
#include "harness.h"

using namespace fcp::client;
using verif::Ev;
using verif::Rng;
namespace fs = std::filesystem;

// Names are drawn with rand() today: let draws collide often.
namespace {
Rng* g_names = nullptr;
}
extern "C" int rand() {
  static auto real = fsf::Real<int (*)()>("rand");
  return g_names ? g_names->in(0, 15) : real();
}

namespace {

struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

// Where the manager keeps its files is its own choice below the cache
// directory: the first file it creates in an untouched directory tells.
std::string Probe(const std::string& dir) {
  Log log;
  auto t = cache::TempFiles::Create(dir, &log);
  if (!t.ok()) return "";
  auto f = (*t)->CreateTempFile("p", ".q");
  if (!f.ok()) return "";
  return fs::path(*f).parent_path().lexically_relative(dir).string();
}

struct Run {
  Rng g;
  bool fault;
  std::string cache, scratch;

  std::string Outside() {
    std::string s;
    std::map<std::string, std::string> m;
    for (auto it = fs::recursive_directory_iterator(fsf::root); it != fs::recursive_directory_iterator(); ++it) {
      std::string p = it->path().string();
      if (p == scratch) {
        it.disable_recursion_pending();
        continue;
      }
      if (it->is_directory() && (scratch + "/").rfind(p + "/", 0) == 0) continue;  // its ancestors
      std::string body = "dir";
      if (it->is_regular_file()) {
        std::ifstream in(p);
        body.assign(std::istreambuf_iterator<char>(in), {});
      }
      m[p] = body;
    }
    for (auto& [k, v] : m) s += k + "=" + v + ";";
    return s;
  }
  std::vector<std::string> Left() {
    std::vector<std::string> r;
    std::error_code e;
    for (auto& f : fs::directory_iterator(scratch, e))
      if (!f.is_directory()) r.push_back(f.path().filename().string());
    return r;
  }
  void Arm(const Ev& crash) {
    fsf::fired = false;
    fsf::countdown = fault && g.chance(20) ? g.in(0, 6) : -1;
    fsf::crash = g.chance(40);
    fsf::more = g.chance(20) ? 2 : 0;
    fsf::crash_event = crash.str();
    fsf::armed = true;
  }
  std::string before;
  Ev& Tail(Ev& e) { return e.b("f", fsf::fired).b("out", Outside() == before).sl("left", Left()); }

  // One process: at most one manager at a time.
  int Child(int ops) {
    Log log;
    Rng names(g.u64());
    if (g.chance(60)) g_names = &names;
    std::vector<std::string> parts = {"", "a", "init", ".ckp", "x y", "1", "..", "-", "\xc3\xa9", std::string(60, 'n')};
    if (g.chance(50)) parts.resize(g.in(1, 3));
    std::unique_ptr<cache::TempFiles> t;
    for (int k = 0; k < ops; ++k) {
      if (!t) {
        bool abs = !g.chance(3);
        Arm(Ev("died"));
        auto r = cache::TempFiles::Create(abs ? cache : "rel/cache", &log);
        fsf::armed = false;
        Ev e("create");
        e.b("ok", r.ok()).b("abs", abs);
        fsf::Line(Tail(e).str());
        if (r.ok()) t = *std::move(r);
      } else if (g.chance(80)) {
        std::string pre = g.pick(parts), suf = g.pick(parts);
        auto had = Left();
        Arm(Ev("died"));
        auto r = t->CreateTempFile(pre, suf);
        fsf::armed = false;
        Ev e("make");
        std::string path = r.ok() ? *r : "";
        std::string name = fs::path(path).filename().string();
        std::error_code ec;
        e.b("ok", r.ok()).s("name", name).b("inside", r.ok() && fs::path(path).lexically_normal().parent_path() == fs::path(scratch));
        e.b("empty", r.ok() && fs::is_regular_file(path, ec) && fs::file_size(path, ec) == 0);
        e.b("named", r.ok() && name.size() >= pre.size() + suf.size() && name.rfind(pre, 0) == 0 &&
                         name.compare(name.size() - suf.size(), suf.size(), suf) == 0);
        fsf::Line(Tail(e).str());
        if (r.ok() && g.chance(60)) {  // the user writes to it
          std::ofstream o(path);
          o << "data" << k;
        }
      } else {
        Arm(Ev("died"));
        t.reset();
        fsf::armed = false;
        Ev e("destroy");
        fsf::Line(Tail(e).str());
      }
    }
    if (t && g.chance(50)) {
      t.reset();
      fsf::fired = false;
      Ev e("destroy");
      fsf::Line(Tail(e).str());
    }
    return 0;
  }
};

}  // namespace

int main(int argc, char** argv) {
  if (argc != 5) return 3;
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int runs = atoi(argv[3]);
  fsf::fd = open(argv[1], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (fsf::fd < 0) return 3;
  fsf::root = fs::absolute(std::string(argv[1]) + ".dir").string();
  fs::remove_all(fsf::root);
  fs::create_directories(fsf::root + "/probe");
  fsf::armed = true;
  std::string rel = Probe(fsf::root + "/probe");
  fsf::armed = false;
  if (rel.empty() || rel.rfind("..", 0) == 0 || rel == ".") {
    fsf::Line(Ev("noscratch").s("at", rel).str());
    return 0;
  }
  for (int run = 0; run < runs; ++run) {
    Rng g(seed * 100003 + run);
    fs::remove_all(fsf::root);
    std::string cache = fsf::root + "/data/cache", scratch = cache + "/" + rel;
    // Bystanders beside and above the scratch directory, and links to them.
    for (std::string d : {std::string("/data/cache/keep"), std::string("/data/files"), std::string("/other/sub")}) {
      fs::create_directories(fsf::root + d);
      std::ofstream(fsf::root + d + "/f") << d;
    }
    if (g.chance(50)) {
      fs::create_directories(fs::path(scratch).parent_path() / "cache");
      std::ofstream(fs::path(scratch).parent_path() / "cache" / "entry") << "cached";
      std::ofstream(fs::path(scratch).parent_path() / "file") << "x";
    }
    fsf::Line(Ev("reset").str());
    int sessions = g.in(1, 6);
    for (int s = 0; s < sessions; ++s) {
      // Foreign entries.
      if (g.chance(40)) {
        fs::create_directories(scratch);
        int n = g.in(1, 3);
        for (int i = 0; i < n; ++i) {
          std::string name = "left" + std::to_string(g.in(0, 9));
          if (!fs::exists(scratch + "/" + name)) {
            if (g.chance(20)) fs::create_symlink(fsf::root + "/other/sub/f", scratch + "/" + name);
            else std::ofstream(scratch + "/" + name) << "old";
            fsf::Line(Ev("plant").s("name", name).str());
          }
        }
      }
      if (g.chance(15)) {
        fs::create_directories(scratch);
        int kind = g.in(0, 2);
        if (kind == 0) {
          fs::create_directories(scratch + "/emptydir");  // may be removed like a file
          fsf::Line(Ev("stuck").s("name", "emptydir").str());
        } else if (kind == 1) {
          std::error_code e;
          fs::create_directory_symlink(fsf::root + "/other", scratch + "/linkdir", e);
          fsf::Line(Ev("stuck").s("name", "linkdir").str());
        } else {
          fs::create_directories(scratch + "/dir");
          std::ofstream(scratch + "/dir/x") << "x";
          fsf::Line(Ev("stuck").s("name", "dir").str());
        }
      }
      uint64_t cs = g.u64();
      int ops = g.in(1, 14);
      Run r{Rng(cs), std::string(argv[4]) == "fault", cache, scratch};
      r.before = r.Outside();
      pid_t pid = fork();
      if (pid < 0) return 3;
      if (pid == 0) {
        _exit(r.Child(ops));
      }
      int st;
      waitpid(pid, &st, 0);
      if (WIFSIGNALED(st)) {
        fprintf(stderr, "killed by signal %d\n", WTERMSIG(st));
        raise(WTERMSIG(st));
        return 1;
      }
      if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77) return WEXITSTATUS(st);
      // The process has ended, perhaps without destroying its manager.
      fsf::Line(Ev("crash").b("out", r.Outside() == r.before).sl("left", r.Left()).str());
      if (g.chance(60)) {
        std::error_code e;
        for (auto n : {"/dir", "/emptydir", "/linkdir"}) fs::remove_all(scratch + n, e);
        fsf::Line(Ev("unstick").str());
      }
    }
  }
  fs::remove_all(fsf::root);
  return 0;
}
