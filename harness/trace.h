// Recording of executions as ndjson, and deterministic random choices.
#ifndef VERIF_HARNESS_TRACE_H_
#define VERIF_HARNESS_TRACE_H_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <random>
#include <string>
#include <vector>

namespace verif {

// One JSON object under construction.
class Ev {
 public:
  explicit Ev(const std::string& e) : s_("{\"e\":\"" + e + "\"") {}
  Ev& i(const std::string& k, long long v) {
    s_ += ",\"" + k + "\":" + std::to_string(v);
    return *this;
  }
  Ev& b(const std::string& k, bool v) {
    s_ += ",\"" + k + "\":" + (v ? "true" : "false");
    return *this;
  }
  Ev& s(const std::string& k, const std::string& v) {
    s_ += ",\"" + k + "\":" + Quote(v);
    return *this;
  }
  Ev& raw(const std::string& k, const std::string& json) {
    s_ += ",\"" + k + "\":" + json;
    return *this;
  }
  template <typename C>
  Ev& il(const std::string& k, const C& v) {
    std::string r = "[";
    bool first = true;
    for (auto x : v) {
      if (!first) r += ",";
      first = false;
      r += std::to_string(x);
    }
    return raw(k, r + "]");
  }
  template <typename C>
  Ev& sl(const std::string& k, const C& v) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : v) {
      if (!first) r += ",";
      first = false;
      r += Quote(x);
    }
    return raw(k, r + "]");
  }
  std::string str() const { return s_ + "}"; }

  static std::string Quote(const std::string& v) {
    std::string r = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += c;
      } else if (c < 32 || c > 126) {
        char buf[8];
        snprintf(buf, sizeof buf, "\\u%04x", c);
        r += buf;
      } else {
        r += c;
      }
    }
    return r + "\"";
  }

 private:
  std::string s_;
};

// Trace file; every event is one line, written in the order of the calls.
class Trace {
 public:
  explicit Trace(const char* path) : f_(fopen(path, "w")) {
    if (!f_) {
      fprintf(stderr, "cannot open trace %s\n", path);
      exit(3);
    }
    setvbuf(f_, nullptr, _IOLBF, 1 << 16);
  }
  ~Trace() { fclose(f_); }
  void Add(const Ev& e) { (*this)(e); }
  void operator()(const Ev& e) {
    std::lock_guard<std::mutex> l(m_);
    std::string s = e.str();
    s += "\n";
    fwrite(s.data(), 1, s.size(), f_);
  }
  void flush() { fflush(f_); }
  std::mutex& mu() { return m_; }

 private:
  FILE* f_;
  std::mutex m_;
};

class Rng {
 public:
  explicit Rng(uint64_t seed) : g_(seed * 0x9E3779B97F4A7C15ull + 12345) {}
  // Uniform in [lo, hi].
  long long in(long long lo, long long hi) {
    return lo + static_cast<long long>(g_() % static_cast<uint64_t>(hi - lo + 1));
  }
  bool chance(int percent) { return in(1, 100) <= percent; }
  uint64_t u64() { return g_(); }
  template <typename T>
  T pick(const std::vector<T>& v) {
    return v[in(0, static_cast<long long>(v.size()) - 1)];
  }
  template <typename T>
  T& pick(std::vector<T>& v) {
    return v[in(0, static_cast<long long>(v.size()) - 1)];
  }

 private:
  std::mt19937_64 g_;
};

}  // namespace verif

#endif  // VERIF_HARNESS_TRACE_H_
