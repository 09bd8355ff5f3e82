// Drives the HTTP client against a scripted server on the loopback interface.
// usage: d_curl <trace> <seed> <runs> <mode: mixed|faults|cancel|colon>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <unistd.h>
#include <zlib.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <csignal>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "fcp/client/http/curl/curl_api.h"
#include "fcp/client/http/curl/curl_http_client.h"
#include "fcp/client/http/http_client.h"
#include "harness.h"

using namespace fcp::client::http;
using fcp::client::http::curl::CurlApi;
using fcp::client::http::curl::CurlHttpClient;
using verif::CodeName;
using verif::Ev;
using verif::Rng;

namespace {

using Headers = std::vector<std::pair<std::string, std::string>>;

std::string Gzip(const std::string& in) {
  z_stream z{};
  deflateInit2(&z, 6, Z_DEFLATED, 15 | 16, 8, Z_DEFAULT_STRATEGY);
  std::string out(deflateBound(&z, in.size()) + 32, 0);
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = in.size();
  z.next_out = reinterpret_cast<Bytef*>(out.data());
  z.avail_out = out.size();
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}
std::string Bytes(Rng& r, size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = static_cast<char>(r.u64());
  return s;
}

// One response of the server.
struct Resp {
  int code = 200;
  Headers headers;           // beyond those of the framing
  std::string framing = "length";  // length, chunked, close, none
  std::string wire;          // the body as transmitted, before chunking
  bool trailers = false;
  int interim = 0;           // interim responses before it
  // fault: "", "nothing" (closes before any byte), "headers" (in the middle of the headers), "body" (in the
  // middle of the body, where the framing shows it), "stall" (body stops until released), "silent" (no answer
  // until released)
  std::string fault;
  size_t cut = 0;
};
struct Script {
  int id = 0;
  std::string method, path, body;
  Headers extra;
  bool chunked_upload = false;
  std::vector<Resp> hops;
  bool read_fails = false;
};

class Server {
 public:
  Server(verif::Trace& t) : tr_(t) {
    fd_ = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd_, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || listen(fd_, 64) != 0) exit(3);
    socklen_t n = sizeof a;
    getsockname(fd_, reinterpret_cast<sockaddr*>(&a), &n);
    port = ntohs(a.sin_port);
    std::thread([this] {
      for (;;) {
        int c = accept(fd_, nullptr, nullptr);
        if (c < 0) continue;
        int one = 1;
        setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        std::thread([this, c] { Serve(c); }).detach();
      }
    }).detach();
  }
  // A new run: requests of earlier ones that the server notices only now no longer count.
  void NewRun(int last) {
    std::lock_guard<std::mutex> l(run_);
    last_ = last;
    tr_.Add(Ev("reset"));
  }
  void Put(const Script& s) {
    std::lock_guard<std::mutex> l(m_);
    scripts_[s.id] = s;
    released_[s.id] = false;
    stalled_[s.id] = false;
  }
  void Release(int id) {
    std::lock_guard<std::mutex> l(m_);
    released_[id] = true;
    cv_.notify_all();
  }
  // Waits until the response of id has stopped in the middle.
  void AwaitStall(int id) {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait_for(l, std::chrono::seconds(5), [&] { return stalled_[id] || released_[id]; });
  }
  int port = 0;

 private:
  bool Fill(int c, std::string& buf) {
    char b[65536];
    ssize_t n = recv(c, b, sizeof b, 0);
    if (n <= 0) return false;
    buf.append(b, n);
    return true;
  }
  bool Send(int c, const std::string& s) {
    size_t at = 0;
    while (at < s.size()) {
      ssize_t n = send(c, s.data() + at, s.size() - at, MSG_NOSIGNAL);
      if (n <= 0) return false;
      at += n;
    }
    return true;
  }
  void Serve(int c) {
    std::string buf;
    while (One(c, buf)) {}
    shutdown(c, SHUT_RDWR);
    close(c);
  }
  void Hold(int id) {
    std::unique_lock<std::mutex> l(m_);
    stalled_[id] = true;
    cv_.notify_all();
    if (cv_.wait_for(l, std::chrono::seconds(20), [&] { return released_[id]; })) return;
    tr_.Add(Ev("overdue").i("id", id));
    tr_.flush();
    _exit(0);
  }
  bool One(int c, std::string& buf) {
    size_t end;
    while ((end = buf.find("\r\n\r\n")) == std::string::npos)
      if (!Fill(c, buf)) return false;
    std::vector<std::string> lines = absl::StrSplit(buf.substr(0, end), "\r\n");
    buf.erase(0, end + 4);
    std::vector<std::string> first = absl::StrSplit(lines[0], ' ');
    std::multimap<std::string, std::string> hs;
    for (size_t i = 1; i < lines.size(); ++i) {
      size_t k = lines[i].find(':');
      if (k != std::string::npos)
        hs.emplace(absl::AsciiStrToLower(lines[i].substr(0, k)), std::string(absl::StripAsciiWhitespace(lines[i].substr(k + 1))));
    }
    auto get = [&](const std::string& k) { auto it = hs.find(k); return it == hs.end() ? std::string() : it->second; };
    // path: /<id>/<hop>
    std::vector<std::string> p = absl::StrSplit(first.size() > 1 ? first[1] : "", '/');
    int id = 0, hop = 0;
    if (p.size() < 3 || !absl::SimpleAtoi(p[1], &id) || !absl::SimpleAtoi(p[2], &hop)) return false;
    Script s;
    {
      std::lock_guard<std::mutex> l(m_);
      if (!scripts_.count(id)) return false;
      s = scripts_[id];
    }
    if (hop >= static_cast<int>(s.hops.size())) return false;
    if (absl::EqualsIgnoreCase(get("expect"), "100-continue") && !Send(c, "HTTP/1.1 100 Continue\r\n\r\n")) return false;
    std::string body;
    if (absl::EqualsIgnoreCase(get("transfer-encoding"), "chunked")) {
      for (;;) {
        size_t k;
        while ((k = buf.find("\r\n")) == std::string::npos)
          if (!Fill(c, buf)) return false;
        size_t n = std::stoul(buf.substr(0, k), nullptr, 16);
        while (buf.size() < k + 2 + n + 2)
          if (!Fill(c, buf)) return false;
        body += buf.substr(k + 2, n);
        buf.erase(0, k + 2 + n + 2);
        if (n == 0) break;
      }
    } else if (!get("content-length").empty()) {
      size_t n = std::stoul(get("content-length"));
      while (buf.size() < n)
        if (!Fill(c, buf)) return false;
      body = buf.substr(0, n);
      buf.erase(0, n);
    }
    bool extra = true;
    std::string ae;
    for (auto& [k, v] : s.extra) {
      if (absl::EqualsIgnoreCase(k, "accept-encoding")) ae = v;
      bool found = false;
      for (auto [i, e] = hs.equal_range(absl::AsciiStrToLower(k)); i != e; ++i) found |= i->second == v;
      extra &= found;
    }
    bool gzip = absl::StrContains(get("accept-encoding"), "gzip");
    if (std::lock_guard<std::mutex> l(run_); hop == 0 && id > last_)
      tr_.Add(Ev("asked").i("id", id).s("method", first[0]).b("body", body == s.body).b("extra", extra).b("enc", !ae.empty() || gzip));
    const Resp& r = s.hops[hop];
    if (r.fault == "nothing") return false;
    if (r.fault == "silent") return Hold(id), false;
    std::string out;
    for (int i = 0; i < r.interim; ++i)
      out += i % 2 == 0 ? "HTTP/1.1 100 Continue\r\n\r\n" : "HTTP/1.1 103 Early Hints\r\nLink: early\r\n\r\n";
    out += absl::StrCat("HTTP/1.1 ", r.code, " Some: text\r\n");
    for (auto& [k, v] : r.headers) out += absl::StrCat(k, ": ", v, "\r\n");
    std::string payload = r.wire;
    size_t most = payload.empty() ? 0 : payload.size() - 1;  // of an incomplete body
    if (r.framing == "chunked") {
      out += "Transfer-Encoding: chunked\r\n";
      payload.clear();
      for (size_t at = 0; at < r.wire.size();) {
        size_t n = std::min<size_t>(r.wire.size() - at, 1 + (at * 7 + r.wire.size()) % 5000);
        absl::StrAppend(&payload, absl::Hex(n), "\r\n", r.wire.substr(at, n), "\r\n");
        at += n;
      }
      most = payload.size();
      payload += r.trailers ? "0\r\nX-Trailer: late\r\nX-More: later\r\n\r\n" : "0\r\n\r\n";
    } else if (r.framing == "length") {
      out += absl::StrCat("Content-Length: ", r.wire.size(), "\r\n");
    }
    bool last = r.framing == "close";
    if (last) out += "Connection: close\r\n";
    if (r.fault == "headers") {
      Send(c, out.substr(0, std::min(out.size() - 3, r.cut)));
      return false;
    }
    out += "\r\n";
    if (first[0] == "HEAD") payload.clear();
    if (r.fault == "body" || r.fault == "stall") {
      Send(c, out + payload.substr(0, std::min(r.cut, most)));
      if (r.fault == "stall") Hold(id);
      return false;
    }
    // In pieces, so that the client sees several.
    out += payload;
    for (size_t at = 0; at < out.size();) {
      size_t n = std::min<size_t>(out.size() - at, 1 + out.size() / 3);
      if (!Send(c, out.substr(at, n))) return false;
      at += n;
    }
    return !last;
  }
  verif::Trace& tr_;
  std::mutex run_;
  int last_ = 0;
  int fd_;
  std::mutex m_;
  std::condition_variable cv_;
  std::map<int, Script> scripts_;
  std::map<int, bool> released_, stalled_;
};

class Request : public HttpRequest {
 public:
  Request(const Script& s, std::string uri, Rng& rng) : s_(s), uri_(std::move(uri)), step_(rng.in(1, 40000)) {
    for (auto& [k, v] : s.extra) headers_.push_back({k, v});
    if (!s.body.empty() && !s.chunked_upload) headers_.push_back({rng.chance(50) ? "Content-Length" : "content-length", absl::StrCat(s.body.size())});
  }
  absl::string_view uri() const override { return uri_; }
  Method method() const override {
    return s_.method == "GET" ? Method::kGet : s_.method == "HEAD" ? Method::kHead : s_.method == "POST" ? Method::kPost
           : s_.method == "PUT" ? Method::kPut : s_.method == "PATCH" ? Method::kPatch : Method::kDelete;
  }
  const HeaderList& extra_headers() const override { return headers_; }
  bool HasBody() const override { return !s_.body.empty(); }
  absl::StatusOr<int64_t> ReadBody(char* b, int64_t n) override {
    if (s_.read_fails && at_ >= s_.body.size() / 2) return absl::DataLossError("cannot read");
    if (at_ >= s_.body.size()) return absl::OutOfRangeError("end");
    size_t k = std::min<size_t>({static_cast<size_t>(n), (s_.read_fails ? s_.body.size() / 2 : s_.body.size()) - at_, step_});
    memcpy(b, s_.body.data() + at_, k);
    at_ += k;
    return k;
  }

 private:
  Script s_;
  std::string uri_;
  HeaderList headers_;
  size_t at_ = 0, step_;
};

std::string Pairs(const Headers& h) {
  std::vector<std::string> v;
  for (auto& [k, x] : h) v.push_back(absl::StrCat("[", Ev::Quote(k), ",", Ev::Quote(x), "]"));
  return absl::StrCat("[", absl::StrJoin(v, ","), "]");
}

constexpr char kDate[] = "Mon, 16 Nov 2026 03:04:05 GMT";
bool g_date_cut = false;

struct One : HttpRequestCallback {
  One(verif::Trace& t) : tr(t) {}
  verif::Trace& tr;
  int id = 0;
  std::string plain;       // the body to be delivered
  size_t got = 0;
  int refuse = 0;          // 1: the start, 2: the first block of the body
  int cancel = 0;          // 1: in the start, 2: in the first block of the body
  HttpRequestHandle* h = nullptr;
  std::atomic<bool> over{false};
  const HttpRequest* req = nullptr;
  void Cancel(const char* where) {
    tr.Add(Ev("cancel").i("id", id).s("where", where));
    h->Cancel();
    tr.Add(Ev("cancelled").i("id", id));
  }
  absl::Status OnResponseStarted(const HttpRequest& r, const HttpResponse& s) override {
    Headers hs(s.headers().begin(), s.headers().end());
    for (auto& [k, v] : hs) g_date_cut |= k == "Date" && v != kDate;
    tr.Add(Ev("start").i("id", id).i("code", s.code()).raw("hdrs", Pairs(hs)).b("refuse", refuse == 1));
    if (cancel == 1) cancel = 0, Cancel("callback");
    if (refuse == 1) return absl::InvalidArgumentError("refused");
    return absl::OkStatus();
  }
  void OnResponseError(const HttpRequest&, const absl::Status& e) override {
    tr.Add(Ev("err").i("id", id).s("st", CodeName(e)));
    over = true;
  }
  absl::Status OnResponseBody(const HttpRequest&, const HttpResponse&, absl::string_view d) override {
    bool match = got + d.size() <= plain.size() && absl::string_view(plain).substr(got, d.size()) == d;
    got += d.size();
    tr.Add(Ev("body").i("id", id).i("n", d.size()).b("match", match).b("refuse", refuse == 2));
    if (cancel == 2) cancel = 0, Cancel("callback");
    if (refuse == 2) return absl::ResourceExhaustedError("refused");
    return absl::OkStatus();
  }
  void OnResponseBodyError(const HttpRequest&, const HttpResponse&, const absl::Status& e) override {
    tr.Add(Ev("berr").i("id", id).s("st", CodeName(e)));
    over = true;
  }
  void OnResponseCompleted(const HttpRequest&, const HttpResponse& s) override {
    tr.Add(Ev("done").i("id", id).i("code", s.code()));
    over = true;
  }
};

struct Flight {
  Script s;
  std::unique_ptr<HttpRequestHandle> handle;
  std::unique_ptr<One> cb;
  std::string plan;
};

Headers SomeHeaders(Rng& rng) {
  Headers h;
  static const std::vector<std::string> names{"Content-Type", "x-a", "X-B", "Set-Cookie", "ETag", "set-cookie"};
  static const std::vector<std::string> values{"", "v", "text/html; charset=utf-8", "a=b; c=d", "with  two blanks", "\"quoted\"", "x,y", "HTTP/1.1"};
  int n = rng.in(0, 4);
  for (int i = 0; i < n; ++i) h.emplace_back(rng.pick(names), rng.pick(values));
  return h;
}

Script Make(Rng& rng, int id, const std::string& mode) {
  Script s;
  s.id = id;
  s.method = rng.pick(std::vector<std::string>{"GET", "GET", "POST", "POST", "PUT", "HEAD"});
  if (mode == "mixed" && rng.chance(3)) s.method = rng.chance(50) ? "PATCH" : "DELETE";
  if (s.method == "POST" || s.method == "PUT") {
    s.body = Bytes(rng, rng.pick(std::vector<int>{1, 12, 1000, 70000, 300000}));
    s.chunked_upload = rng.chance(20);
  }
  if (rng.chance(40)) s.extra.emplace_back("x-extra", "some thing");
  if (s.method == "POST" || rng.chance(20)) s.extra.emplace_back("Content-Type", "application/x-protobuf");
  bool own = rng.chance(30);  // the caller deals with encodings
  if (own) s.extra.emplace_back(rng.chance(50) ? "Accept-Encoding" : "accept-encoding", rng.chance(50) ? "identity" : "gzip, deflate");
  int redirects = rng.chance(25) ? rng.in(1, 3) : 0;
  if (rng.chance(1)) redirects = 60;
  for (int i = 0; i < redirects; ++i) {
    Resp r;
    r.code = rng.pick(std::vector<int>{301, 302, 303, 307, 308});
    r.headers = SomeHeaders(rng);
    r.headers.emplace_back(rng.chance(50) ? "Location" : "location", absl::StrCat("/", id, "/", i + 1));
    r.wire = rng.chance(50) ? "moved" : "";
    r.framing = rng.chance(30) ? "chunked" : "length";
    s.hops.push_back(r);
  }
  Resp f;
  f.code = rng.pick(std::vector<int>{200, 200, 200, 201, 206, 400, 403, 404, 429, 500, 503});
  if (rng.chance(4)) f.code = rng.pick(std::vector<int>{300, 301, 302, 304, 307});
  if (rng.chance(3)) f.code = 204;
  f.headers = SomeHeaders(rng);
  std::string plain = Bytes(rng, rng.pick(std::vector<int>{0, 1, 5, 100, 5000, 40000, 200000}));
  f.framing = rng.pick(std::vector<std::string>{"length", "length", "chunked", "close"});
  f.trailers = rng.chance(30);
  if (rng.chance(20)) f.interim = rng.in(1, 3);
  bool gz = rng.chance(30);
  if (gz) f.headers.emplace_back("Content-Encoding", "gzip");
  f.wire = gz ? Gzip(plain) : plain;
  if (f.code == 204 || f.code == 304) f.wire = plain = "", f.framing = "none", f.headers = {{"x-a", "v"}};
  if (mode == "faults" && rng.chance(60)) {
    f.fault = rng.pick(std::vector<std::string>{"nothing", "headers", "body", "body"});
    if (f.fault == "headers") f.cut = rng.in(1, 60);
    if (f.fault == "body") f.cut = rng.in(0, 3000);
  }
  if (mode == "cancel" && rng.chance(60)) {
    f.fault = rng.pick(std::vector<std::string>{"stall", "stall", "silent"});
    f.cut = rng.in(0, 3000);
  }
  if ((f.fault == "body" || f.fault == "stall") && (f.framing == "close" || f.framing == "none" || s.method == "HEAD" || f.wire.empty()))
    f.fault = "";
  if (mode == "faults" && !s.body.empty() && rng.chance(15)) s.read_fails = true;
  s.hops.push_back(f);
  return s;
}

// What the final response is, and what of it will arrive.
std::string Plan(const Script& s, std::string& plain, bool& whole) {
  const Resp& f = s.hops.back();
  bool own = false, gz = false;
  for (auto& [k, v] : s.extra) own |= absl::EqualsIgnoreCase(k, "accept-encoding");
  for (auto& [k, v] : f.headers) gz |= absl::EqualsIgnoreCase(k, "content-encoding");
  Headers must, may;  // headers that must be reported, headers that may be
  for (auto& h : f.headers) if (own || !absl::EqualsIgnoreCase(h.first, "content-encoding")) must.push_back(h);
  if (f.framing == "length" && own) must.emplace_back("Content-Length", absl::StrCat(f.wire.size()));
  if (f.framing == "close") must.emplace_back("Connection", "close");
  if (f.framing == "chunked") may.emplace_back("Transfer-Encoding", "chunked");
  std::string content = f.wire;
  if (gz && !own) {  // undone by the client
    z_stream z{};
    inflateInit2(&z, 15 | 32);
    std::string out(300000, 0);
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(f.wire.data()));
    z.avail_in = f.wire.size();
    z.next_out = reinterpret_cast<Bytef*>(out.data());
    z.avail_out = out.size();
    inflate(&z, Z_FINISH);
    out.resize(z.total_out);
    inflateEnd(&z);
    content = out;
  }
  // Without a body a start may be noticed only at the end; trailers may then count as headers.
  if (f.framing == "chunked" && f.trailers && content.empty()) may.insert(may.end(), {{"X-Trailer", "late"}, {"X-More", "later"}});
  if (s.method == "HEAD") content.clear();
  plain = content;
  bool many = s.hops.size() > 30;
  bool resend = false;  // a body would have to be sent again, which the client may be unable to do
  for (size_t i = 0; i + 1 < s.hops.size(); ++i) resend |= !s.body.empty();
  bool heads = f.fault.empty() || f.fault == "body" || f.fault == "stall";
  whole = f.fault.empty();
  auto tf = [](bool b) { return b ? "true" : "false"; };
  return absl::StrCat("{\"code\":", f.code, ",\"must\":", Pairs(must), ",\"may\":", Pairs(may), ",\"len\":", content.size(),
                      ",\"wire\":", s.method == "HEAD" ? 0 : f.wire.size(), ",\"heads\":", tf(heads && !s.read_fails && !many), ",\"whole\":", tf(whole && !s.read_fails && !many),
                      ",\"many\":", tf(many), ",\"resend\":", tf(resend), ",\"hops\":", s.hops.size() - 1, ",\"supported\":",
                      tf(s.method != "PATCH" && s.method != "DELETE"), ",\"up\":", s.body.size(), ",\"chunked\":", tf(s.chunked_upload), ",\"hold\":", tf(f.fault == "stall" || f.fault == "silent"), "}");
}

void Run(Rng& rng, verif::Trace& tr, Server& server, CurlHttpClient& client, int& ids, const std::string& mode) {
  std::vector<Flight> batch;
  int n = rng.in(1, 3);
  for (int i = 0; i < n; ++i) {
    Flight f;
    f.s = Make(rng, ++ids, mode);
    if (mode == "colon") {
      f.s.method = "GET", f.s.body = "", f.s.hops.erase(f.s.hops.begin(), f.s.hops.end() - 1);
      f.s.hops[0].code = 200, f.s.hops[0].headers = {{"Date", kDate}}, f.s.hops[0].interim = 0;
      f.s.hops[0].framing = "length", f.s.hops[0].wire = "x";
      f.s.read_fails = false;
    }
    f.cb = std::make_unique<One>(tr);
    f.cb->id = f.s.id;
    bool whole;
    f.plan = Plan(f.s, f.cb->plain, whole);
    server.Put(f.s);
    auto req = std::make_unique<Request>(f.s, absl::StrCat("http://127.0.0.1:", server.port, "/", f.s.id, "/0"), rng);
    f.cb->req = req.get();
    tr.Add(Ev("enqueue").i("id", f.s.id).s("method", f.s.method).raw("plan", f.plan));
    f.handle = client.EnqueueRequest(std::move(req));
    f.cb->h = f.handle.get();
    if (mode != "colon" && rng.chance(10)) f.cb->refuse = rng.in(1, 2);
    if (mode == "cancel" && !f.cb->refuse && rng.chance(30)) f.cb->cancel = rng.in(1, 2);
    batch.push_back(std::move(f));
  }
  auto stats = [&](Flight& f) {
    auto b = f.handle->TotalSentReceivedBytes();
    tr.Add(Ev("bytes").i("id", f.s.id).i("sent", b.sent_bytes).i("got", b.received_bytes));
  };
  for (auto& f : batch) if (rng.chance(20)) stats(f);
  // A request cancelled before it was ever performed.
  if (mode == "cancel" && rng.chance(10)) batch[rng.in(0, n - 1)].cb->Cancel("idle");
  std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> v;
  std::vector<int> in;
  for (auto& f : batch) v.emplace_back(f.handle.get(), f.cb.get()), in.push_back(f.s.id);
  tr.Add(Ev("perform").il("ids", in));
  std::vector<std::thread> others;
  for (auto& f : batch) {
    const Resp& r = f.s.hops.back();
    Flight* p = &f;
    bool hold = r.fault == "stall" || r.fault == "silent";
    if (!hold && !(mode == "cancel" && rng.chance(30))) continue;
    int us = rng.in(0, 3000), then = rng.in(0, 9);
    others.emplace_back([p, hold, us, then, &server] {
      if (hold) server.AwaitStall(p->s.id);
      usleep(us);
      if (then > 0) p->cb->Cancel("thread");
      if (then > 7) p->cb->Cancel("thread");
      if (then == 0) server.Release(p->s.id);  // closes the connection in the middle
    });
  }
  auto st = client.PerformRequests(v);
  tr.Add(Ev("performed").s("st", CodeName(st)));
  for (auto& f : batch) server.Release(f.s.id);
  for (auto& t : others) t.join();
  for (auto& f : batch) {
    if (rng.chance(10) && !f.cb->cancel) f.cb->Cancel("idle");  // too late
    stats(f);
  }
  if (rng.chance(8)) {  // handles are good for one call
    auto& f = rng.pick(batch);
    tr.Add(Ev("perform").il("ids", std::vector<int>{f.s.id}));
    auto again = client.PerformRequests({{f.handle.get(), f.cb.get()}});
    tr.Add(Ev("performed").s("st", CodeName(again)));
  }
  tr.Add(Ev("end"));
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  for (auto v : {"http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"}) unsetenv(v);
  signal(SIGPIPE, SIG_IGN);
  static verif::Trace& tr = *new verif::Trace(argv[1]);
  Rng rng(std::stoull(argv[2]));
  int runs = std::stoi(argv[3]);
  std::string mode = argv[4];
  static auto& server = *new Server(tr);
  auto& api = *new CurlApi();
  auto& client = *new CurlHttpClient(&api);
  int ids = 0;
  for (int i = 0; i < runs; ++i) {
    server.NewRun(ids);
    Run(rng, tr, server, client, ids, mode);
  }
  tr.flush();
  _exit(g_date_cut ? 1 : 0);
}
