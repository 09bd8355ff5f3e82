// Drives slice requests of federated select: fetching, scratch files, iteration, statistics.
// usage: d_select <trace> <seed> <runs> <mode: mixed|errors>
#include <sys/resource.h>

#include <atomic>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "fakehttp.h"
#include "fcp/client/federated_select.h"
#include "harness.h"

using namespace fcp::client;
using fakehttp::Reply;
using fakehttp::Req;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::SlicesSelector;
using verif::CodeName;
using verif::Ev;
using verif::Rng;
namespace fs = std::filesystem;

namespace {

struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

int H(const std::string& s) { return std::hash<std::string>()(s) % 1000000007; }

std::string Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

struct Scratch : Files {
  Scratch(Rng& r, verif::Trace& t, std::string d) : rng(r), tr(t), dir(std::move(d)) {}
  absl::StatusOr<std::string> CreateTempFile(const std::string&, const std::string&) override {
    if (rng.chance(bad)) {
      tr.Add(Ev("temp").b("ok", false).s("file", ""));
      return rng.chance(50) ? absl::InvalidArgumentError("disk") : absl::InternalError("disk");
    }
    std::string name = "f" + std::to_string(++n), path = dir + "/" + name;
    std::ofstream(path) << (rng.chance(50) ? "left over from before, and quite long, too" : "");
    tr.Add(Ev("temp").b("ok", true).s("file", name));
    return path;
  }
  std::vector<std::string> Present() {
    std::vector<std::string> r;
    for (auto& e : fs::directory_iterator(dir)) r.push_back(e.path().filename());
    return r;
  }
  Rng& rng;
  verif::Trace& tr;
  std::string dir;
  int bad = 0, n = 0;
};

// Files may not grow beyond this while it lives.
struct Quota {
  explicit Quota(long long bytes) {
    getrlimit(RLIMIT_FSIZE, &old);
    if (bytes >= 0) {
      rlimit l = old;
      l.rlim_cur = bytes;
      setrlimit(RLIMIT_FSIZE, &l);
    }
  }
  ~Quota() { setrlimit(RLIMIT_FSIZE, &old); }
  rlimit old;
};

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  signal(SIGXFSZ, SIG_IGN);
  verif::Trace tr(argv[1]);
  Rng rng(strtoull(argv[2], nullptr, 10));
  int runs = atoi(argv[3]);
  bool errors = std::string(argv[4]) == "errors";
  std::string root = std::string(argv[1]) + ".d";
  fs::create_directory(root);
  Log log;
  for (int run = 0; run < runs; ++run) {
    std::string dir = root + "/r" + std::to_string(run);
    fs::create_directory(dir);
    Scratch files(rng, tr, dir);
    int bad = errors ? rng.pick(std::vector<int>{3, 10, 25}) : 0;
    files.bad = bad / 2;
    std::atomic<bool> stop{false};
    fakehttp::Client client(rng.u64());
    std::vector<Ev> lines;
    long long sent = 0, got = 0;
    std::string salt = std::to_string(rng.in(0, 1000000));
    std::map<std::string, std::string> bodies;
    bool blocked = false;
    client.batch = [&](size_t) {
      lines.clear();
      sent = got = 0;
      blocked = false;
    };
    client.handler = [&](const Req& q) {
      bool fresh = !bodies.count(q.uri);
      std::string& body = bodies[q.uri];
      if (fresh) {
        body = salt + q.uri;
        if (rng.chance(15)) body += std::string(rng.in(5000, 200000), 'x') + '\n' + '\0' + "\r\n";
        if (rng.chance(5)) body = "\n";
        if (rng.chance(8)) body.clear();
      }
      Reply r = Reply::Ok(body);
      if (rng.chance(40) && body.size() > 1) {
        size_t k = rng.in(1, body.size() - 1);
        r.chunks = {body.substr(0, k), body.substr(k)};
      }
      r.sent = rng.in(0, 500);
      r.received = rng.in(0, 500);
      sent += r.sent;
      got += r.received;
      bool ok = true;
      if (rng.chance(bad)) {
        ok = false;
        switch (rng.in(0, 3)) {
          case 0: r.end = Reply::kBodyError; break;
          case 1: r.end = Reply::kHeaderError; break;
          case 2: r.code = rng.pick(std::vector<int>{404, 500, 503, 302}); break;
          default: r.chunks.push_back("more than announced"); break;
        }
      }
      if (rng.chance(bad / 4)) {
        ok = false;
        r.block = blocked = true;
      }
      lines.push_back(Ev("r").s("uri", q.method == "GET" && q.body.empty() ? q.uri : "bad " + q.uri).b("ok", ok).i("h", H(body)));
      return r;
    };
    client.blocked = [&] {
      if (!stop.exchange(true)) tr.Add(Ev("stop"));
    };
    client.overall = [&] {
      std::vector<std::string> rs;
      for (auto& l : lines) rs.push_back(l.str());
      bool fail = rng.chance(bad / 6);
      tr.Add(Ev("fetch").raw("rs", "[" + absl::StrJoin(rs, ",") + "]").b("ok", !fail).i("sent", sent).i("got", got));
      return fail ? absl::InternalError("whole") : absl::OkStatus();
    };
    InterruptibleRunner::TimingConfig timing{absl::Milliseconds(1), absl::Seconds(60), absl::Seconds(120)};
    HttpFederatedSelectManager manager(&log, &files, &client, [&] { return stop.load(); }, timing);

    tr.Add(Ev("reset"));
    std::map<int, std::unique_ptr<ExampleIterator>> its;
    std::vector<std::pair<std::unique_ptr<engine::ExampleIteratorFactory>, std::string>> factories;
    int made = 0;
    int steps = rng.in(5, 25);
    auto present = [&](Ev ev) { tr.Add(ev.sl("files", files.Present())); };
    for (int step = 0; step < steps; ++step) {
      int what = its.empty() ? 0 : rng.in(0, 9);
      if (stop.load() && rng.chance(50)) stop = false, tr.Add(Ev("go"));
      if (what <= 2) {
        // a template: pieces of text and the two variables
        std::vector<std::string> toks, text;
        std::string tmpl;
        if (factories.empty() || rng.chance(40)) {
          int n = rng.chance(6) ? 0 : rng.in(1, 6);
          if (n) toks = {"https://x.test/"};
          for (int i = 0; i < n; ++i)
            toks.push_back(rng.pick(std::vector<std::string>{"{served}", "{key}", "{key}", "/a", "?b=", "{", "}", "{key_base16}", "served_at", "%20"}));
          for (auto& t : toks) tmpl += t == "{served}" ? "{served_at_id}" : t == "{key}" ? "{key_base10}" : t;
          factories.emplace_back(manager.CreateExampleIteratorFactoryForUriTemplate(tmpl), absl::StrJoin(toks, "\n"));
        }
        auto& [factory, joined] = factories[rng.in(0, factories.size() - 1)];
        for (size_t i = 0; i < joined.size();) {
          size_t e = joined.find('\n', i);
          if (e == std::string::npos) e = joined.size();
          text.push_back(joined.substr(i, e - i));
          i = e + 1;
        }
        SlicesSelector sel;
        std::string served = rng.pick(std::vector<std::string>{"", "id", "a/b c", "{key_base10}", "{served_at_id}", "x%41"});
        sel.set_served_at_id(served);
        int n = rng.chance(10) ? 0 : rng.in(1, 6);
        std::vector<long long> keys;
        for (int i = 0; i < n; ++i) {
          int k = rng.chance(30) ? rng.pick(std::vector<int>{0, -1, 2147483647, -2147483647, 10}) : rng.in(0, 4);
          sel.add_keys(k);
          keys.push_back(k);
        }
        ExampleSelector es;
        es.set_collection_uri(kFederatedSelectCollectionUri);
        bool good = !rng.chance(5);
        if (good) {
          es.mutable_criteria()->PackFrom(sel);
        } else if (rng.chance(50)) {
          es.mutable_criteria()->PackFrom(ExampleSelector());
        }
        int id = ++made;
        tr.Add(Ev("create").i("id", id).sl("tmpl", text).s("served", served).il("keys", keys).b("good", good));
        auto it = factory->CreateExampleIterator(es);
        present(Ev("made").i("id", id).s("st", CodeName(it.ok() ? absl::StatusCode::kOk : it.status().code())));
        if (it.ok()) its[id] = *std::move(it);
        auto s = manager.GetNetworkStats();
        tr.Add(Ev("stats").i("sent", s.bytes_uploaded).i("got", s.bytes_downloaded));
      } else {
        auto it = its.begin();
        std::advance(it, rng.in(0, its.size() - 1));
        if (what <= 7) {
          long long limit = rng.chance(bad) ? rng.pick(std::vector<int>{0, 1, 8, 4096, 20000}) : -1;
          std::string got, st;
          {
            Quota q(limit);
            auto r = it->second->Next();
            st = CodeName(r.ok() ? absl::StatusCode::kOk : r.status().code());
            if (r.ok()) got = *r;
          }
          bool ok = st == "OK";
          present(Ev("next").i("id", it->first).s("st", st).b("full", limit >= 0).s("file", ok ? fs::path(got).filename().string() : "")
                      .i("h", ok ? H(Slurp(got)) : 0));
        } else if (what == 8) {
          it->second->Close();
          present(Ev("close").i("id", it->first));
        } else {
          int id = it->first;
          its.erase(it);
          present(Ev("drop").i("id", id));
        }
      }
    }
    while (!its.empty()) {
      int id = its.begin()->first;
      its.erase(its.begin());
      present(Ev("drop").i("id", id));
    }
    fs::remove_all(dir);
  }
  fs::remove_all(root);
  return 0;
}
