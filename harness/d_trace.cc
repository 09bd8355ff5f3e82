// Drives tracing spans, references and recorders from several threads.
// usage: d_trace <trace> <seed> <runs> <mode: global|local|vanish|ids>
#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <streambuf>
#include <thread>

#include "fcp/tracing/test/tracing_schema.h"
#include "fcp/tracing/test_tracing_recorder_impl.h"
#include "fcp/tracing/text_tracing_recorder_impl.h"
#include "fcp/tracing/tracing_recorder_impl.h"
#include "fcp/tracing/tracing_span.h"
#include "harness.h"

using namespace fcp;
using fcp::tracing_internal::TestTracingRecorderImpl;
using fcp::tracing_internal::TextTracingRecorderImpl;
using fcp::tracing_internal::TracingRecorderImpl;
using verif::Ev;
using verif::Rng;

namespace {

// What recorders were told, by the number the driver put into the message.
struct Note {
  std::string rec, kind;
  long long parent, id;
};
int Below(Rng& rng, int n) { return static_cast<int>(rng.in(0, n - 1)); }

std::mutex& mu = *new std::mutex;
std::map<long long, std::vector<Note>>& notes = *new std::map<long long, std::vector<Note>>;
void Told(long long uid, const Note& n) {
  std::lock_guard<std::mutex> l(mu);
  notes[uid].push_back(n);
}

struct Listener : TestTracingRecorderImpl::TraceListener {
  explicit Listener(std::string n) : name(std::move(n)) {}
  void OnRoot(TracingSpanId, flatbuffers::DetachedBuffer) override {}
  void OnTrace(TracingSpanId parent, TracingSpanId id, flatbuffers::DetachedBuffer data) override {
    TracingTag tag = *TracingTag::FromFlatbuf(data);
    const uint8_t* p = data.data();
    long long uid = -1;
    std::string kind = "?";
    if (tag == TracingTraits<SpanWithId>::kTag) {
      uid = flatbuffers::GetRoot<SpanWithId>(p)->id();
      kind = "span";
    } else if (tag == TracingTraits<EventFoo>::kTag) {
      uid = flatbuffers::GetRoot<EventFoo>(p)->first();
      kind = flatbuffers::GetRoot<EventFoo>(p)->second() == uid + 7 ? "foo" : "?";
    } else if (tag == TracingTraits<EventBar>::kTag) {
      uid = flatbuffers::GetRoot<EventBar>(p)->first();
      kind = flatbuffers::GetRoot<EventBar>(p)->second()->str() == "b" + std::to_string(uid) ? "bar" : "?";
    } else if (tag == TracingTraits<ErrorEvent>::kTag) {
      uid = std::stoll(flatbuffers::GetRoot<ErrorEvent>(p)->cause()->str());
      kind = "error";
    }
    Told(uid, {name, kind, parent.value, id.value});
  }
  std::string name;
};

// One line of a text recorder: "<date> <time..> <id>: <what> ...".
void Line(const std::string& rec, const std::string& line) {
  struct Kind {
    const char* text;
    const char* kind;
  };
  static const Kind kinds[] = {{": BEGIN SpanWithId", "span"}, {": END SpanWithId", "end"},
                               {": INFO EventFoo", "foo"},     {": INFO EventBar", "bar"},
                               {": ERROR ErrorEvent", "error"}};
  for (const Kind& k : kinds) {
    size_t at = line.find(k.text);
    if (at == std::string::npos) continue;
    size_t from = line.rfind(' ', at);
    long long id = atoll(line.c_str() + from + 1);
    size_t d = line.find('{', at);
    if (d == std::string::npos) break;
    d = line.find_first_of("0123456789", d);
    if (d == std::string::npos) break;
    long long uid = atoll(line.c_str() + d);
    std::string kind = k.kind;
    if (kind == "foo" && line.find("second: " + std::to_string(uid + 7)) == std::string::npos) kind = "?";
    if (kind == "bar" && line.find("\"b" + std::to_string(uid) + "\"") == std::string::npos) kind = "?";
    long long parent = id;
    if (kind == "span") {
      size_t p = line.find("parent: ", at);
      parent = p == std::string::npos ? -1 : atoll(line.c_str() + p + 8);
    }
    Told(uid, {rec, kind, parent, kind == "span" || kind == "end" ? id : -1});
    return;
  }
}

// The recorder of last resort writes to std::cerr.
struct Capture : std::streambuf {
  static std::string& buf() {
    thread_local std::string b;
    return b;
  }
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) put(static_cast<char>(c));
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; ++i) put(s[i]);
    return n;
  }
  void put(char c) {
    if (c != '\n') {
      buf() += c;
      return;
    }
    std::string l;
    l.swap(buf());
    Line("D", l);
  }
};

struct Recorder {
  std::string name;
  std::unique_ptr<Listener> listener;
  std::string file;
  std::shared_ptr<TracingRecorderImpl> impl;
  std::weak_ptr<TracingRecorderImpl> weak;
  std::shared_ptr<std::atomic<bool>> gone = std::make_shared<std::atomic<bool>>(false);
};

struct Item {
  long long uid;
  std::shared_ptr<UnscopedTracingSpan<SpanWithId>> span;  // or only a reference
  std::optional<TracingSpanRef> ref;
};

struct Event {
  Ev ev;
  long long uid = -1;  // a return: what was told is filled in afterwards
};

struct Run {
  std::vector<Event> log;
  std::vector<Recorder> recorders;
  std::vector<Item> pool;
  std::mutex lmu, pmu;
  std::atomic<long long> uids{100};
  bool local = false, vanish = false;

  void Log(Ev e, long long uid = -1) {
    std::lock_guard<std::mutex> l(lmu);
    log.push_back({std::move(e), uid});
  }
  size_t Size() {
    std::lock_guard<std::mutex> l(lmu);
    return log.size();
  }
  long long Uid() { return uids++; }
  std::string Name(const TracingRecorderImpl* p) {
    for (auto& r : recorders)
      if (r.weak.lock().get() == p) return r.name;
    return "D";
  }
  std::optional<Item> Pick(Rng& rng) {
    std::lock_guard<std::mutex> l(pmu);
    if (pool.empty()) return std::nullopt;
    return pool[Below(rng, pool.size())];
  }
  std::optional<Item> Take(Rng& rng) {
    std::lock_guard<std::mutex> l(pmu);
    if (pool.empty()) return std::nullopt;
    size_t i = Below(rng, pool.size());
    Item it = std::move(pool[i]);
    pool.erase(pool.begin() + i);
    return it;
  }
  void Keep(Item it) {
    std::lock_guard<std::mutex> l(pmu);
    pool.push_back(std::move(it));
  }

  void Call(int t, const char* op, long long uid, long long ref, const std::string& r = "") {
    Log(Ev("call").i("t", t).s("op", op).i("uid", uid).i("ref", ref).s("r", r));
  }
  // `told`: what to report in the return of this operation.
  void Ret(int t, const char* op, long long uid) { Log(Ev("ret").i("t", t).s("op", op).i("uid", uid), uid); }

  template <class... A>
  static void Emit(int kind, long long uid, A... ref) {
    if (kind == 0) {
      Trace<EventFoo>(ref..., static_cast<int>(uid), static_cast<int>(uid + 7));
    } else if (kind == 1) {
      Trace<EventBar>(ref..., static_cast<int>(uid), "b" + std::to_string(uid));
    } else {
      (void)TraceError<ErrorEvent>(ref..., std::to_string(uid));
    }
  }

  void Drop(int t, Item it) {
    // Only a span's end is told; references just go away.
    long long uid = it.uid;
    const char* op = it.span ? "drop" : "unref";
    Call(t, op, uid, 0);
    it.ref.reset();
    bool span = it.span != nullptr;
    it.span.reset();
    Log(Ev("ret").i("t", t).s("op", op).i("uid", uid), span ? -uid : -1);
  }

  void Body(int t, Rng& rng, int depth) {
    static const char* kKinds[] = {"foo", "bar", "error"};
    int n = Below(rng, 5);
    for (int i = 0; i < n; ++i) {
      if (Below(rng, 8) == 0) std::this_thread::yield();
      std::optional<Item> with;
      if (Below(rng, 3) == 0) with = Pick(rng);
      long long ref = with ? with->uid : 0;
      int what = Below(rng, local ? 12 : vanish ? 7 : 10);
      if (what < 3) {
        long long uid = Uid();
        int kind = Below(rng, 3);
        Call(t, kKinds[kind], uid, ref);
        if (with) {
          Emit(kind, uid, *with->ref);
        } else {
          Emit(kind, uid);
        }
        Ret(t, kKinds[kind], uid);
      } else if (what < 7) {
        if (depth > 3) continue;
        long long uid = Uid();
        Call(t, "open", uid, ref);
        auto inside = [&](TracingSpan<SpanWithId>& span) {
          Ret(t, "open", uid);
          if (!vanish && Below(rng, 3) == 0) {
            Call(t, "ref", uid, 0);
            Keep({uid, nullptr, span.Ref()});
            Log(Ev("ret").i("t", t).s("op", "ref").i("uid", uid));
          }
          Body(t, rng, depth + 1);
          Call(t, "shut", uid, 0);
        };
        if (with) {
          TracingSpan<SpanWithId> span(*with->ref, static_cast<int>(uid));
          inside(span);
        } else {
          TracingSpan<SpanWithId> span(static_cast<int>(uid));
          inside(span);
        }
        Log(Ev("ret").i("t", t).s("op", "shut").i("uid", uid), -uid);
      } else if (what == 7) {
        long long uid = Uid();
        Call(t, "make", uid, ref);
        auto span = with ? std::make_shared<UnscopedTracingSpan<SpanWithId>>(*with->ref, static_cast<int>(uid))
                         : std::make_shared<UnscopedTracingSpan<SpanWithId>>(static_cast<int>(uid));
        Item it{uid, span, span->Ref()};
        span.reset();
        Ret(t, "make", uid);
        Keep(std::move(it));
      } else if (what == 8) {
        long long uid = Uid();
        Call(t, "top", uid, 0);
        TracingSpanRef r = TracingSpanRef::Top();
        Log(Ev("ret").i("t", t).s("op", "top").i("uid", uid).s("r", Name(r.recorder().get())).i("id", r.span_id().value));
        Keep({uid, nullptr, r});
      } else if (what == 9) {
        if (auto it = Take(rng)) Drop(t, std::move(*it));
      } else {
        // Installing twice is fine if it is the same one.
        Recorder& r = recorders[mine[t] >= 0 ? mine[t] : static_cast<int>(Below(rng, recorders.size()))];
        int before = mine[t];
        Call(t, "enter", 0, 0, r.name);
        r.impl->InstallAsThreadLocal();
        Log(Ev("ret").i("t", t).s("op", "enter").i("uid", 0));
        mine[t] = &r - recorders.data();
        if (depth < 4) Body(t, rng, depth + 1);
        Call(t, "leave", 0, 0, r.name);
        r.impl->UninstallAsThreadLocal();
        Log(Ev("ret").i("t", t).s("op", "leave").i("uid", 0));
        mine[t] = before;
      }
    }
  }
  int mine[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
};

void Once(verif::Trace& out, uint64_t seed, const std::string& mode, const std::string& dir) {
  Rng rng(seed);
  Run run;
  run.local = mode == "local";
  run.vanish = mode == "vanish";
  notes.clear();
  auto create = [&] {
    Recorder r;
    std::shared_ptr<std::atomic<bool>> gone = r.gone;
    auto bye = [gone](TracingRecorderImpl* p) {
      delete p;
      *gone = true;
    };
    r.name = "r" + std::to_string(run.recorders.size() + 1);
    if (Below(rng, 2)) {
      r.listener = std::make_unique<Listener>(r.name);
      r.impl = std::shared_ptr<TracingRecorderImpl>(new TestTracingRecorderImpl(r.listener.get()), bye);
    } else {
      r.file = dir + "/" + r.name;
      r.impl = std::shared_ptr<TracingRecorderImpl>(new TextTracingRecorderImpl(r.file, absl::UTCTimeZone()), bye);
    }
    r.weak = r.impl;
    run.Log(Ev("recorder").s("r", r.name).b("text", !r.file.empty()));
    run.recorders.push_back(std::move(r));
  };
  int nr = run.vanish ? 0 : 1 + Below(rng, 3);
  for (int i = 0; i < nr; ++i) create();
  int nt = 1 + Below(rng, 3);
  std::vector<std::thread> ts;
  std::atomic<int> left{nt};
  for (int t = 1; t <= nt; ++t) {
    uint64_t s = rng.u64();
    ts.emplace_back([&run, &left, t, s] {
      Rng r(s);
      for (int k = 0; k < 3; ++k) run.Body(t, r, 0);
      --left;
    });
  }
  if (!run.local) {
    // The main thread swaps the global recorder meanwhile.
    auto pause = [&](int most) {
      size_t n = run.Size() + Below(rng, most);
      while (left.load() > 0 && run.Size() < n) std::this_thread::yield();
    };
    pause(5);
    do {
      if (run.vanish) create();
      Recorder& r = run.vanish ? run.recorders.back() : run.recorders[Below(rng, nr)];
      run.Call(9, "use", 0, 0, r.name);
      r.impl->InstallAsGlobal();
      run.Log(Ev("ret").i("t", 9).s("op", "use").i("uid", 0));
      pause(40);
      run.Call(9, "unuse", 0, 0, r.name);
      if (run.vanish) {
        // It goes away with whoever uses it last.
        r.impl.reset();
        while (!*r.gone) std::this_thread::yield();
      } else {
        r.impl->UninstallAsGlobal();
      }
      run.Log(Ev("ret").i("t", 9).s("op", "unuse").i("uid", 0));
      pause(12);
    } while (left.load() > 0);
  }
  for (auto& t : ts) t.join();
  // References keep recorders that nobody else holds.
  for (auto& r : run.recorders) {
    r.impl.reset();
    run.Log(Ev("held").s("r", r.name).b("v", !r.weak.expired()));
  }
  for (int i = Below(rng, 4); i > 0; --i) {
    if (auto it = run.Pick(rng)) {
      long long uid = run.Uid();
      run.Call(9, "foo", uid, it->uid);
      Run::Emit(0, uid, *it->ref);
      run.Ret(9, "foo", uid);
    }
  }
  while (auto it = run.Take(rng)) run.Drop(9, std::move(*it));
  for (auto& r : run.recorders) run.Log(Ev("held").s("r", r.name).b("v", !r.weak.expired()));
  for (auto& r : run.recorders) {
    if (r.file.empty()) continue;
    std::ifstream in(r.file);
    for (std::string l; std::getline(in, l);) Line(r.name, l);
  }
  out.Add(Ev("reset"));
  auto list = [&](long long uid, bool end) {
    std::string s = "[";
    for (const Note& n : notes[uid]) {
      if ((n.kind == "end") != end) continue;
      if (s.size() > 1) s += ",";
      std::string e = Ev("told").s("r", n.rec).s("k", n.kind).i("p", n.parent).i("id", n.id).str();
      s += e;
    }
    return s + "]";
  };
  for (auto& e : run.log) {
    if (e.uid > 0) e.ev.raw("got", list(e.uid, false));
    if (e.uid < -1) e.ev.raw("got", list(-e.uid, true));
    out.Add(e.ev);
  }
  out.Add(Ev("end"));
}

// Identifiers drawn by several threads at once.
void Ids(verif::Trace& out) {
  constexpr int kThreads = 6, kEach = 3000;
  std::vector<std::vector<int64_t>> got(kThreads);
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < kThreads; ++t) {
    ts.emplace_back([&, t] {
      got[t].reserve(kEach);
      ++ready;
      while (ready.load() < kThreads) {
      }
      for (int i = 0; i < kEach; ++i) got[t].push_back(TracingSpanId::NextUniqueId().value);
    });
  }
  for (auto& t : ts) t.join();
  out.Add(Ev("reset"));
  for (auto& g : got) out.Add(Ev("ids").il("v", std::vector<long long>(g.begin(), g.end())));
  out.Add(Ev("end"));
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  verif::Trace out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  static Capture capture;
  std::streambuf* old = std::cerr.rdbuf(&capture);
  std::string dir = std::string(argv[1]) + ".d";
  std::filesystem::create_directories(dir);
  for (int i = 0; i < runs && mode == "ids"; ++i) Ids(out);
  for (int i = 0; i < runs && mode != "ids"; ++i) Once(out, seed * 1000003 + i, mode, dir);
  std::cerr.rdbuf(old);
  std::filesystem::remove_all(dir);
  return 0;
}
