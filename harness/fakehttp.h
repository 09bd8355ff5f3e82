// An HttpClient whose transfers are played from scripts.
#ifndef VERIF_HARNESS_FAKEHTTP_H_
#define VERIF_HARNESS_FAKEHTTP_H_

#include <algorithm>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/strings/ascii.h"
#include "fcp/base/compression.h"
#include "fcp/client/http/http_client.h"
#include "trace.h"

namespace fakehttp {

using namespace fcp::client::http;

struct Req {
  std::string uri, method, body;  // body: decompressed
  HeaderList headers;
  bool consistent = true;  // the declared and the real body agree
  std::string Header(const std::string& name) const {
    for (auto& [k, v] : headers)
      if (absl::AsciiStrToLower(k) == absl::AsciiStrToLower(name)) return v;
    return "";
  }
  bool HasHeader(const std::string& name) const {
    for (auto& [k, v] : headers)
      if (absl::AsciiStrToLower(k) == absl::AsciiStrToLower(name)) return true;
    return false;
  }
};

struct Reply {
  enum End { kComplete, kHeaderError, kBodyError, kNothing };
  int code = 200;
  HeaderList headers;
  std::vector<std::string> chunks;
  End end = kComplete;
  int error = 14;
  long long sent = 0, received = 0;
  bool block = false;  // hang until cancelled
  static Reply Ok(std::string body) {
    Reply r;
    r.headers = {{"Content-Length", std::to_string(body.size())}};
    if (!body.empty()) r.chunks = {std::move(body)};
    return r;
  }
  static Reply Http(int code) {
    Reply r;
    r.code = code;
    return r;
  }
  static Reply Fail(int error) {
    Reply r;
    r.end = kHeaderError;
    r.error = error;
    return r;
  }
};

class Client;

class Response : public HttpResponse {
 public:
  int c = 0;
  HeaderList h;
  int code() const override { return c; }
  const HeaderList& headers() const override { return h; }
};

class Handle : public HttpRequestHandle {
 public:
  Handle(std::unique_ptr<HttpRequest> r) : request(std::move(r)) {}
  SentReceivedBytes TotalSentReceivedBytes() const override { return {sent, received}; }
  void Cancel() override {
    std::lock_guard<std::mutex> l(mu);
    cancelled = true;
    cv.notify_all();
  }
  std::unique_ptr<HttpRequest> request;
  Response response;
  long long sent = 0, received = 0;
  bool cancelled = false;
  std::mutex mu;
  std::condition_variable cv;
};

class Client : public HttpClient {
 public:
  explicit Client(uint64_t seed) : rng(seed) {}
  std::unique_ptr<HttpRequestHandle> EnqueueRequest(std::unique_ptr<HttpRequest> r) override {
    return std::make_unique<Handle>(std::move(r));
  }
  absl::Status PerformRequests(std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> rs) override {
    struct Work {
      Handle* h;
      HttpRequestCallback* cb;
      Reply r;
      size_t next = 0;
      bool started = false, over = false;
    };
    if (batch) batch(rs.size());
    std::vector<Work> ws;
    for (auto& [h, cb] : rs) {
      auto* hh = static_cast<Handle*>(h);
      Work w{hh, cb, handler(Read(*hh->request))};
      hh->sent = w.r.sent;
      hh->received = w.r.received;
      ws.push_back(std::move(w));
    }
    // Transfers make progress in any order.
    std::vector<Work*> open;
    for (auto& w : ws) open.push_back(&w);
    while (!open.empty()) {
      size_t i = rng.in(0, open.size() - 1);
      Work& w = *open[i];
      Step(w);
      if (w.over) open.erase(open.begin() + i);
    }
    return overall ? overall() : absl::OkStatus();
  }

  std::function<Reply(const Req&)> handler;
  std::function<absl::Status()> overall;
  std::function<void(size_t)> batch;
  std::function<void()> blocked;  // called when a transfer starts to hang
  verif::Rng rng;

 private:
  template <typename W>
  void Step(W& w) {
    if (w.r.block) {
      if (blocked) blocked();
      {
        std::unique_lock<std::mutex> l(w.h->mu);
        w.h->cv.wait(l, [&] { return w.h->cancelled; });
      }
      w.r.block = false;
      w.r.error = 1;
      w.r.end = w.started ? Reply::kBodyError : Reply::kHeaderError;
    }
    if (!w.started) {
      if (w.r.end == Reply::kNothing) {
        w.over = true;
        return;
      }
      if (w.r.end == Reply::kHeaderError) {
        w.cb->OnResponseError(*w.h->request, absl::Status(static_cast<absl::StatusCode>(w.r.error), "transport"));
        w.over = true;
        return;
      }
      w.h->response.c = w.r.code;
      w.h->response.h = w.r.headers;
      w.started = true;
      w.over = !w.cb->OnResponseStarted(*w.h->request, w.h->response).ok();
      return;
    }
    if (w.next < w.r.chunks.size()) {
      w.over = !w.cb->OnResponseBody(*w.h->request, w.h->response, w.r.chunks[w.next++]).ok();
      return;
    }
    if (w.r.end == Reply::kBodyError)
      w.cb->OnResponseBodyError(*w.h->request, w.h->response,
                                absl::Status(static_cast<absl::StatusCode>(w.r.error), "transport"));
    else
      w.cb->OnResponseCompleted(*w.h->request, w.h->response);
    w.over = true;
  }

  Req Read(HttpRequest& r) {
    Req q;
    q.uri = std::string(r.uri());
    static const char* const kNames[] = {"HEAD", "GET", "POST", "PUT", "PATCH", "DELETE"};
    q.method = kNames[static_cast<int>(r.method())];
    q.headers = r.extra_headers();
    if (r.HasBody()) {
      for (;;) {
        char buf[64];
        auto n = r.ReadBody(buf, rng.in(1, 64));
        if (!n.ok()) {
          q.consistent = q.consistent && absl::IsOutOfRange(n.status());
          break;
        }
        q.body.append(buf, *n);
        if (q.body.size() > 10000000) break;
      }
    }
    std::string len = q.Header("Content-Length");
    q.consistent = q.consistent && (q.body.empty() ? len.empty() || len == "0" : len == std::to_string(q.body.size()));
    std::string enc = q.Header("Content-Encoding");
    if (enc == "gzip") {
      auto u = fcp::UncompressWithGzip(q.body);
      q.consistent = q.consistent && u.ok();
      if (u.ok()) q.body = std::string(*u);
    } else if (!enc.empty()) {
      q.consistent = false;
    }
    return q;
  }
};

}  // namespace fakehttp

#endif  // VERIF_HARNESS_FAKEHTTP_H_
