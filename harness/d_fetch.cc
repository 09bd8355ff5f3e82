// Drives the in-memory HTTP requests and resource fetching.
// usage: d_fetch <trace> <seed> <runs> <mode: mixed|errors>
#include <zlib.h>

#include <atomic>

#include "absl/strings/str_cat.h"
#include "fakehttp.h"
#include "fcp/client/http/http_resource_metadata.pb.h"
#include "fcp/client/http/in_memory_request_response.h"
#include "harness.h"

using namespace fcp;
using namespace fcp::client;
using namespace fcp::client::http;
using fakehttp::Reply;
using fakehttp::Req;
using verif::CodeName;
using verif::Ev;
using verif::Rng;

namespace {

struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

// A short name of some bytes.
std::string T(const std::string& s) {
  bool plain = s.size() <= 20;
  for (char c : s) plain = plain && isalnum(static_cast<unsigned char>(c));
  if (plain) return s;
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return absl::StrCat("#", s.size(), "-", h);
}

std::string Gzip(const std::string& in, int level) {
  z_stream z{};
  if (deflateInit2(&z, level, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY) != Z_OK) _exit(3);
  std::string out(deflateBound(&z, in.size()) + 64, 0);
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
  z.avail_in = in.size();
  z.next_out = reinterpret_cast<Bytef*>(out.data());
  z.avail_out = out.size();
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) _exit(3);
  out.resize(out.size() - z.avail_out);
  deflateEnd(&z);
  return out;
}

std::string Text(Rng& rng) {
  int n = rng.chance(10) ? rng.in(2000, 70000) : rng.in(0, 12);
  std::string s;
  for (int i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyz0123456789"[rng.in(0, 35)];
  return s;
}

// Content, possibly compressed, possibly spoilt.
struct Content {
  std::string raw, text;
  bool gz = false, readable = true;
};
Content Make(Rng& rng, int bad) {
  Content c;
  c.text = Text(rng);
  c.gz = rng.chance(40);
  c.raw = c.gz ? Gzip(c.text, rng.in(0, 9)) : c.text;
  if (c.gz && !c.text.empty() && rng.chance(bad)) {
    c.readable = false;
    switch (rng.in(0, 2)) {
      case 0: c.raw = "not compressed at all " + c.text; break;
      case 1: c.raw.resize(rng.in(1, c.raw.size() - 1)); break;
      default: c.raw[c.raw.size() - rng.in(1, 8)] ^= 0x55;  // checksum or length
    }
  }
  return c;
}

struct Cache : cache::ResourceCache {
  explicit Cache(Rng& r, verif::Trace& t) : rng(r), tr(t) {}
  absl::Status Put(absl::string_view id, const absl::Cord& data, const google::protobuf::Any& m,
                   absl::Duration age) override {
    HttpResourceMetadata meta;
    bool ok = m.UnpackTo(&meta);
    bool stored = !rng.chance(15);
    tr.Add(Ev("put").s("id", std::string(id)).s("raw", T(std::string(data))).b("stored", stored).i("age", absl::ToInt64Seconds(age))
               .b("gz", ok && meta.compression_format() == ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP));
    if (!stored) return absl::ResourceExhaustedError("full");
    entries[std::string(id)] = {data, m};
    return absl::OkStatus();
  }
  absl::StatusOr<ResourceAndMetadata> Get(absl::string_view id, std::optional<absl::Duration>) override {
    auto it = entries.find(std::string(id));
    bool hit = it != entries.end() && !rng.chance(10);
    if (!hit) {
      tr.Add(Ev("get").s("id", std::string(id)).b("hit", false).s("text", ""));
      return rng.chance(50) ? absl::NotFoundError("none") : absl::InternalError("broken");
    }
    HttpResourceMetadata meta;
    bool ok = it->second.metadata.UnpackTo(&meta);
    std::string text(it->second.resource);
    if (ok && meta.compression_format() == ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP) {
      auto f = texts.find(text);
      ok = f != texts.end();
      if (ok) text = f->second;
    }
    tr.Add(Ev("get").s("id", std::string(id)).b("hit", ok).s("text", ok ? T(text) : ""));
    return it->second;
  }
  std::map<std::string, ResourceAndMetadata> entries;
  std::map<std::string, std::string> texts;  // compressed -> text
  Rng& rng;
  verif::Trace& tr;
};

std::string AnyCase(Rng& rng, std::string s) {
  int k = rng.in(0, 3);
  for (auto& c : s) c = k == 1 ? tolower(c) : k == 2 ? toupper(c) : c;
  return s;
}

const int kCodes[] = {200, 200, 200, 201, 204, 206, 299, 300, 304, 400, 401, 403, 404, 409, 418, 429, 499, 500, 501, 502, 503, 504, 599};

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  verif::Trace tr(argv[1]);
  Rng rng(strtoull(argv[2], nullptr, 10));
  int runs = atoi(argv[3]);
  bool errors = std::string(argv[4]) == "errors";
  Log log;
  for (int run = 0; run < runs; ++run) {
    tr.Add(Ev("reset"));
    std::atomic<bool> abort{false};
    InterruptibleRunner runner(
        &log, [&] { return abort.load(); },
        {absl::Milliseconds(1), absl::Seconds(60), absl::Seconds(120)},
        {ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP, ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT,
         ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED,
         ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT});
    Cache cache(rng, tr);
    fakehttp::Client client(rng.u64());
    client.blocked = [&] { abort = true; };
    int64_t recv = 0, sent = 0;
    int calls = rng.in(1, 6);
    for (int call = 0; call < calls; ++call) {
      abort = false;
      int kind = rng.in(0, 9);
      if (kind == 0) {  // a request with a body
        std::string body = Text(rng);
        bool gz = rng.chance(50);
        HttpRequest::Method m = rng.pick(std::vector<HttpRequest::Method>{
            HttpRequest::Method::kPost, HttpRequest::Method::kPut, HttpRequest::Method::kPatch, HttpRequest::Method::kDelete});
        auto r = InMemoryHttpRequest::Create("https://x.test/up", m, {{"A", "b"}, {"X", "y:z"}}, body, gz);
        bool ok = r.ok();
        if (ok) {
          client.handler = [&](const Req& q) {
            ok = q.consistent && q.body == body && q.Header("A") == "b" && q.Header("X") == "y:z" && q.uri == "https://x.test/up";
            return Reply::Ok("fine");
          };
          client.overall = nullptr;
          auto res = PerformRequestInMemory(client, runner, std::move(*r), nullptr, nullptr);
          ok = ok && res.ok() && std::string(res->body) == "fine";
        }
        tr.Add(Ev("upload").b("ok", ok));
        continue;
      }
      if (kind == 1) {  // requests that must be refused
        static const struct { const char* uri; bool ok; } kUris[] = {
            {"https://a.test/x", true}, {"HTTPS://a.test/x", true}, {"http://localhost:80/x", true},
            {"http://a.test/x", false}, {"ftp://a.test/", false}, {"http://localhost.evil.test/x", false}, {"httpss://x", false}, {"", false}};
        auto& u = kUris[rng.in(0, 7)];
        HttpRequest::Method m = static_cast<HttpRequest::Method>(rng.in(0, 5));
        std::string body = rng.chance(50) ? "" : "b";
        bool len = rng.chance(20);
        HeaderList h = {{"a", "b"}};
        if (len) h.push_back({AnyCase(rng, "Content-Length"), "1"});
        bool bodyless = m == HttpRequest::Method::kHead || m == HttpRequest::Method::kGet;
        auto r = InMemoryHttpRequest::Create(u.uri, m, h, body, false);
        tr.Add(Ev("refuse").s("ret", CodeName(r.status())).b("allowed", u.ok && !len && (body.empty() || !bodyless)));
        continue;
      }
      // A list of resources.
      int n = rng.in(0, 5);
      std::vector<UriOrInlineData> rs;
      std::string list = "[";
      int odd = errors ? 4 : 1;
      for (int i = 0; i < n; ++i) {
        Ev e("r");
        if (rng.chance(30)) {
          Content c = Make(rng, 20);
          rs.push_back(UriOrInlineData::CreateInlineData(
              absl::Cord(c.raw), c.gz ? UriOrInlineData::InlineData::CompressionFormat::kGzip
                                      : UriOrInlineData::InlineData::CompressionFormat::kUncompressed));
          e.s("k", "inline").s("text", T(c.text)).b("readable", c.readable);
        } else {
          bool https = !rng.chance(odd);
          std::string uri = absl::StrCat(https ? "https" : "http", "://x.test/", run, "-", call, "-", i);
          std::string id = rng.chance(60) ? absl::StrCat("c", rng.in(1, 4)) : "";
          int age = rng.in(1, 1000);
          rs.push_back(UriOrInlineData::CreateUri(uri, id, absl::Seconds(age)));
          e.s("k", "uri").s("uri", uri).s("id", id).i("age", age).b("https", https);
        }
        list += (i ? "," : "") + e.str();
      }
      tr.Add(Ev("fetch").raw("rs", list + "]"));
      bool failed = rng.chance(odd);
      bool hang = rng.chance(odd);
      if (rng.chance(odd)) abort = true;
      client.overall = [&] { return failed ? absl::UnavailableError("all") : absl::OkStatus(); };
      bool performed = false;
      client.batch = [&](size_t) { performed = true; };
      client.handler = [&](const Req& q) {

        Content c = Make(rng, errors ? 25 : 5);
        if (c.gz && c.readable) cache.texts[c.raw] = c.text;
        Reply r;
        r.sent = rng.in(0, 1000);
        r.received = rng.in(0, 100000);
        r.code = rng.chance(errors ? 40 : 10) ? rng.pick(std::vector<int>(std::begin(kCodes), std::end(kCodes))) : 200;
        bool enc = rng.chance(odd * 2), tenc = rng.chance(odd * 2);
        long long len = -1;
        if (rng.chance(80)) {
          len = c.raw.size();
          std::string v = std::to_string(len);
          if (rng.chance(errors ? 30 : 4)) {
            switch (rng.in(0, 4)) {
              case 0: len = -2, v = rng.pick(std::vector<std::string>{"abc", "-1", "-5", "1e3", "12x", "99999999999999999999", ""}); break;
              case 1: len += rng.in(1, 3), v = std::to_string(len); break;
              case 2: if (len > 0) len -= rng.in(1, len > 3 ? 3 : len), v = std::to_string(len); break;
              case 3: len = 2000000000, v = "5000000000"; break;
              case 4: len = 0, v = "0"; break;
            }
          }
          r.headers.push_back({AnyCase(rng, "Content-Length"), v});
        }
        if (enc) r.headers.push_back({AnyCase(rng, "Content-Encoding"), rng.chance(50) ? "gzip" : "br"});
        if (tenc)
          r.headers.push_back({AnyCase(rng, "Transfer-Encoding"), "chunked"});
        else if (rng.chance(20))
          r.headers.push_back({AnyCase(rng, "Transfer-Encoding"), AnyCase(rng, "identity")});
        std::string type = rng.chance(50) ? "application/octet-stream" : "text/x";
        if (c.gz) type += AnyCase(rng, "+gzip");
        if (c.gz || rng.chance(70)) r.headers.push_back({AnyCase(rng, "Content-Type"), type});
        for (size_t i = r.headers.size(); i > 1; --i) std::swap(r.headers[i - 1], r.headers[rng.in(0, i - 1)]);
        std::string b = c.raw;
        if (!c.text.empty() && rng.chance(odd)) b.resize(rng.in(0, b.size()));
        std::string got = b;
        while (!b.empty()) {
          size_t k = rng.chance(30) ? b.size() : rng.in(1, b.size());
          r.chunks.push_back(b.substr(0, k));
          b = b.substr(k);
        }
        bool intact = got == c.raw;
        if (rng.chance(errors ? 25 : 4)) {
          r.end = static_cast<Reply::End>(rng.in(1, 3));
          r.error = rng.in(1, 16);
        }
        bool blocked = hang && rng.chance(50);
        r.block = blocked;
        bool started = !blocked && r.end != Reply::kHeaderError && r.end != Reply::kNothing;
        tr.Add(Ev("request").s("uri", q.uri).s("method", q.method)
                   .b("plain", q.consistent && q.body.empty() && !q.HasHeader("Accept-Encoding"))
                   .raw("x", Ev("x").b("started", started).i("code", r.code).b("enc", enc).b("tenc", tenc).i("len", len)
                                 .i("n", got.size())
                                 .s("end", r.end == Reply::kComplete && !blocked ? "complete" : "error")
                                 .s("raw", T(got)).s("text", T(c.gz ? c.text : got)).b("gz", c.gz)
                                 .b("readable", c.gz ? c.readable && intact : true).b("blocked", blocked)
                                 .i("recv", r.received).i("sent", r.sent).str()));
        return r;
      };
      auto res = FetchResourcesInMemory(client, runner, rs, &recv, &sent, rng.chance(80) ? &cache : nullptr);
      std::string out = "[";
      if (res.ok())
        for (size_t i = 0; i < res->size(); ++i) {
          auto& x = (*res)[i];
          out += (i ? "," : "") + Ev("o").s("ret", CodeName(x.status())).s("text", x.ok() ? T(std::string(x->body)) : "").str();
        }
      tr.Add(Ev("fetched").s("ret", CodeName(res.status())).raw("out", out + "]").i("recv", recv).i("sent", sent)
                 .b("failed", failed && performed).b("asked", abort));
      if (rng.chance(10)) {  // entries may be lost or spoilt
        std::string id = absl::StrCat("c", rng.in(1, 4));
        auto it = cache.entries.find(id);
        if (it != cache.entries.end()) {
          if (rng.chance(50))
            cache.entries.erase(it);
          else
            it->second.metadata.set_type_url("type.googleapis.com/other");
        }
        tr.Add(Ev("evict").s("id", id));
      }
    }
  }
  return 0;
}
