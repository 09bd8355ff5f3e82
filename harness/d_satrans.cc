// Drives the secure aggregation runner over its HTTP transport against a scripted gateway
// in front of a real aggregation server with other clients.
// usage: d_satrans <trace> <seed> <runs> <mode: mixed|stops>
#include "sa_session.h"

#include <atomic>

#include "absl/strings/match.h"
#include "absl/strings/str_split.h"
#include "fakehttp.h"
#include "fcp/base/clock.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/client/http/http_secagg_send_to_server_impl.h"
#include "fcp/client/http/protocol_request_helper.h"
#include "fcp/client/log_manager.h"
#include "fcp/client/secagg_event_publisher.h"
#include "fcp/client/secagg_runner.h"
#include "fcp/protos/federatedcompute/common.pb.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "google/longrunning/operations.pb.h"
#include "harness.h"

using namespace fcp::client;
using namespace fcp::client::http;
namespace v1 = google::internal::federatedcompute::v1;
using fakehttp::Reply;
using fakehttp::Req;
using google::longrunning::Operation;
using verif::CodeName;
using verif::Ev;
using verif::Rng;

namespace {

struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

int H(const std::string& s) { return std::hash<std::string>()(s) % 1000000007; }

std::string Unescape(absl::string_view s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) {
      r += static_cast<char>(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

struct World {
  World(Rng& r, verif::Trace& t) : rng(r), tr(t) {}
  Rng& rng;
  verif::Trace& tr;
  std::atomic<bool> abort{false};
  int bad = 0, stops = 0;
  std::string agg, tok, masked, nonmasked, ckpt;
  bool has_ckpt = false;
  std::unique_ptr<Session> sa;
  std::set<int> others;
  std::string uploaded;
  bool server_ok = true;
  std::map<std::string, int> left;
  std::map<std::string, std::pair<std::string, std::string>> answer;  // kind, packed response
  std::map<std::string, int> digest;
  int counter = 0;

  struct Line {
    Ev ev;
    Ev rep;
    std::string st;
  };
  std::vector<Line> batch;
  bool any_blocked = false;

  void Stop() {
    if (!abort.exchange(true)) tr.Add(Ev("stop"));
  }
  // What the aggregation server answers in this round, or garbage instead.
  Reply Round(const std::string& kind, Ev* rep) {
    std::string name = "operations/" + std::to_string(++counter) + (rng.chance(20) ? "/x y" : "");
    left[name] = rng.chance(50) ? 0 : rng.in(1, 3);
    answer[name].first = kind;
    return Op(name, rep);
  }
  Reply Op(const std::string& name, Ev* rep) {
    Operation op;
    op.set_name(name);
    long long pause = -1;
    rep->s("op", name);
    if (left[name] > 0) {
      --left[name];
      v1::AdvertiseKeysMetadata m;
      v1::SubmitSecureAggregationResultMetadata m2;
      v1::ShareKeysMetadata m3;
      pause = rng.pick(std::vector<int>{0, 5, 1000, 60000, 70000});
      auto set = [&](auto& x) {
        x.mutable_polling_interval()->set_seconds(pause / 1000);
        x.mutable_polling_interval()->set_nanos(pause % 1000 * 1000000);
        op.mutable_metadata()->PackFrom(x);
      };
      const std::string& k = answer[name].first;
      if (k == "adv") set(m);
      else if (k == "share") set(m3);
      else set(m2);
      rep->b("done", false).i("pause", pause).s("err", "").s("k", "").i("h", 0).b("fair", true);
      return Reply::Ok(op.SerializeAsString());
    }
    op.set_done(true);
    rep->b("done", true).i("pause", -1);
    if (rng.chance(bad / 2)) {
      int c = rng.in(1, 16);
      op.mutable_error()->set_code(c);
      rep->s("err", CodeName(static_cast<absl::StatusCode>(c))).s("k", "").i("h", 0).b("fair", true);
      return Reply::Ok(op.SerializeAsString());
    }
    const std::string& kind = answer[name].first;
    S2C m;
    if (!sa->down[0].empty() && server_ok) {
      m = sa->down[0].front();
      sa->down[0].pop_front();
    }
    bool spoil = rng.chance(bad / 2);
    rep->b("fair", !spoil && server_ok);
    if (rng.chance(bad / 4)) {
      op.mutable_response()->PackFrom(v1::ForwardingInfo());
      rep->s("err", "").s("k", "garbage").i("h", 0);
      return Reply::Ok(op.SerializeAsString());
    }
    if (kind == "adv") {
      v1::AdvertiseKeysResponse r;
      *r.mutable_share_keys_server_request() = m.share_keys_request();
      if (spoil) r.mutable_share_keys_server_request()->clear_pairs_of_public_keys();
      op.mutable_response()->PackFrom(r);
      rep->s("err", "").s("k", "share_keys_request").i("h", H(r.share_keys_server_request().SerializeAsString()));
    } else if (kind == "share") {
      v1::ShareKeysResponse r;
      *r.mutable_masked_input_collection_server_request() = m.masked_input_request();
      if (spoil) r.mutable_masked_input_collection_server_request()->add_encrypted_key_shares("x");
      op.mutable_response()->PackFrom(r);
      rep->s("err", "").s("k", "masked_input_request").i("h", H(r.masked_input_collection_server_request().SerializeAsString()));
    } else {
      v1::SubmitSecureAggregationResultResponse r;
      *r.mutable_unmasking_server_request() = m.unmasking_request();
      if (spoil) r.mutable_unmasking_server_request()->add_dead_3_client_ids(77);
      op.mutable_response()->PackFrom(r);
      rep->s("err", "").s("k", "unmasking_request").i("h", H(r.unmasking_server_request().SerializeAsString()));
    }
    return Reply::Ok(op.SerializeAsString());
  }

  Reply Handle(const Req& q) {
    Ev ev("req"), rep("rep");
    bool safe = false;
    Reply r = Decide(q, &ev, &rep, &safe);
    std::string st = "OK";
    if (!safe && rng.chance(bad)) {
      int c = rng.pick(std::vector<int>{400, 404, 409, 500, 503, 429});
      if (rng.chance(40)) {
        int e = rng.in(1, 16);
        r = Reply::Fail(e);
        st = "FAIL";
      } else if (rng.chance(20)) {
        r = Reply::Ok("\xff\xff\xff garbage");
        st = "GARBAGE";
      } else {
        r = Reply::Http(c);
        st = "FAIL";
      }
    }
    if (!safe && rng.chance(stops)) {
      if (rng.chance(60)) {
        r.block = true;
        any_blocked = true;
      } else {
        Stop();
      }
    }
    batch.push_back({ev, rep, st});
    return r;
  }

  void Feed(C2S m) {
    sa->up[0].push_back(m);
    sa->UpAll();
  }
  Reply Decide(const Req& q, Ev* ev, Ev* rep, bool* safe) {
    bool key = q.consistent && q.Header("x-goog-api-key") == "k";
    auto route = [&](int i) { return key && q.Header("x-r") == std::to_string(i); };
    std::pair<std::string, std::string> parts = absl::StrSplit(q.uri, absl::MaxSplits('?', 1));
    const std::string& path = parts.first;
    bool proto = parts.second == "%24alt=proto", raw = parts.second == "upload_protocol=raw";
    std::string base0 = "https://s0.test/v1/secureaggregations/";
    if (proto && route(0) && absl::StartsWith(path, base0)) {
      size_t colon = path.rfind(':');
      std::vector<std::string> seg = absl::StrSplit(path.substr(base0.size(), colon - base0.size()), '/');
      std::string verb = path.substr(colon + 1);
      if (q.method == "POST" && seg.size() == 3 && Unescape(seg[0]) == agg && seg[1] == "clients" && Unescape(seg[2]) == tok) {
        if (verb == "advertisekeys") {
          v1::AdvertiseKeysRequest m;
          if (m.ParseFromString(q.body)) {
            ev->s("k", "adv").i("h", H(m.advertise_keys().SerializeAsString()));
            for (int i : others) sa->Start(i);
            C2S c;
            *c.mutable_advertise_keys() = m.advertise_keys();
            Feed(c);
            server_ok = server_ok && sa->Next();
            return Round("adv", rep);
          }
        } else if (verb == "sharekeys") {
          v1::ShareKeysRequest m;
          if (m.ParseFromString(q.body)) {
            ev->s("k", "share").i("h", H(m.share_keys_client_response().SerializeAsString()));
            C2S c;
            *c.mutable_share_keys_response() = m.share_keys_client_response();
            for (int i : others) sa->Input(i), sa->Down(i);
            Feed(c);
            server_ok = server_ok && sa->Next();
            return Round("share", rep);
          }
        } else if (verb == "submit") {
          v1::SubmitSecureAggregationResultRequest m;
          if (m.ParseFromString(q.body)) {
            ev->s("k", "submit").s("masked", m.masked_result_resource_name()).s("plain", m.nonmasked_result_resource_name());
            C2S c;
            if (c.mutable_masked_input_response()->ParseFromString(uploaded)) {
              for (int i : others) sa->Down(i);
              Feed(c);
              server_ok = server_ok && sa->Next();
            }
            return Round("submit", rep);
          }
        } else if (verb == "unmask") {
          v1::UnmaskRequest m;
          if (m.ParseFromString(q.body)) {
            ev->s("k", "unmask").i("h", H(m.unmasking_client_response().SerializeAsString()));
            C2S c;
            *c.mutable_unmasking_response() = m.unmasking_client_response();
            for (int i : others) sa->Down(i);
            Feed(c);
            server_ok = server_ok && sa->Next() && sa->Next();
            return Reply::Ok("");
          }
        } else if (verb == "abort") {
          v1::AbortSecureAggregationRequest m;
          if (m.ParseFromString(q.body)) {
            ev->s("k", "abort").i("h", H(m.status().message()));
            *safe = true;
            return Reply::Ok("");
          }
        }
      }
    } else if (q.method == "GET" && proto && route(0) && absl::StartsWith(path, "https://s0.test/v1/operations/")) {
      std::string name = Unescape(path.substr(strlen("https://s0.test/v1/")));
      ev->s("k", "get").s("op", name);
      if (left.count(name)) return Op(name, rep);
    } else if (q.method == "POST" && raw && route(1) && path == "https://s1.test/upload/v1/media/" + masked) {
      ev->s("k", "up").s("which", "masked").i("h", H(q.body));
      uploaded = q.body;
      return Reply::Ok("");
    } else if (q.method == "POST" && raw && route(2) && path == "https://s2.test/upload/v1/media/" + nonmasked) {
      ev->s("k", "up").s("which", "plain").i("h", H(q.body));
      return Reply::Ok("");
    }
    ev->s("k", "bad").s("uri", q.uri).s("method", q.method);
    return Reply::Http(404);
  }
};

struct Tap : SecAggSendToServerBase {
  Tap(World& w, std::unique_ptr<SecAggSendToServerBase> i) : w(w), inner(std::move(i)) {}
  void Send(C2S* m) override {
    std::string k = "empty";
    std::string body;
    if (m->has_advertise_keys()) k = "adv", body = m->advertise_keys().SerializeAsString();
    else if (m->has_share_keys_response()) k = "share", body = m->share_keys_response().SerializeAsString();
    else if (m->has_masked_input_response()) k = "masked", body = m->masked_input_response().SerializeAsString();
    else if (m->has_unmasking_response()) k = "unmask", body = m->unmasking_response().SerializeAsString();
    else if (m->has_abort()) k = "abort", body = m->abort().diagnostic_info();
    w.tr.Add(Ev("send").s("k", k).i("h", H(body)));
    inner->Send(m);
  }
  World& w;
  std::unique_ptr<SecAggSendToServerBase> inner;
};
struct Delegate : SecAggProtocolDelegate {
  Delegate(World& w, std::unique_ptr<SecAggProtocolDelegate> i) : w(w), inner(std::move(i)) {}
  absl::StatusOr<uint64_t> GetModulus(const std::string& k) override { return inner->GetModulus(k); }
  absl::StatusOr<S2C> ReceiveServerMessage() override {
    auto r = inner->ReceiveServerMessage();
    std::string k = "empty", body;
    if (r.ok()) {
      if (r->has_share_keys_request()) k = "share_keys_request", body = r->share_keys_request().SerializeAsString();
      else if (r->has_masked_input_request()) k = "masked_input_request", body = r->masked_input_request().SerializeAsString();
      else if (r->has_unmasking_request()) k = "unmasking_request", body = r->unmasking_request().SerializeAsString();
      else if (r->has_abort()) k = "abort";
    }
    w.tr.Add(Ev("recv").b("ok", r.ok()).s("k", r.ok() ? k : "").i("h", H(body)));
    return r;
  }
  void Abort() override { inner->Abort(); }
  size_t last_received_message_size() override { return inner->last_received_message_size(); }
  World& w;
  std::unique_ptr<SecAggProtocolDelegate> inner;
};
struct Publisher : SecAggEventPublisher {
  explicit Publisher(World& w) : w(w) {}
  void PublishStateTransition(ClientState, size_t, size_t) override {}
  void PublishError() override {}
  void PublishAbort(bool client, const std::string&) override { w.tr.Add(Ev("aborted").b("client", client)); }
  void set_execution_session_id(int64_t) override {}
  World& w;
};
struct QuietClock : fcp::Clock {
  explicit QuietClock(World& w) : w(w) {}
  absl::Time Now() override { return absl::Now(); }
  void Sleep(absl::Duration d) override {
    w.tr.Add(Ev("sleep").i("ms", absl::ToInt64Milliseconds(d)));
    if (w.rng.chance(w.stops)) w.Stop();
  }
  absl::Time NowLocked() override { return absl::Now(); }
  void ScheduleWakeup(absl::Time) override {}
  World& w;
};

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  verif::Trace tr(argv[1]);
  Rng rng(strtoull(argv[2], nullptr, 10));
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  Log log;
  for (int run = 0; run < runs; ++run) {
    auto wp = std::make_unique<World>(rng, tr);
    World& w = *wp;
    w.bad = rng.pick(std::vector<int>{0, 0, 4, 10});
    w.stops = mode == "stops" ? rng.pick(std::vector<int>{4, 10, 20}) : 0;
    auto id = [&](const std::string& p) {
      return p + std::to_string(rng.in(0, 999)) + (rng.chance(30) ? rng.pick(std::vector<std::string>{"/a", " b", ":c", "%41", "?x", "#y"}) : "");
    };
    w.agg = id("agg");
    w.tok = id("tok");
    w.masked = "m" + std::to_string(rng.in(0, 999));
    w.nonmasked = "n" + std::to_string(rng.in(0, 999));
    w.has_ckpt = rng.chance(60);
    w.ckpt = std::string(rng.in(0, 300), 'c') + std::to_string(run);
    int n = rng.in(3, 5), len = rng.in(1, 6);
    uint64_t mod = rng.pick(std::vector<uint64_t>{2, 256, 1000, 1ull << 32, 1ull << 62});
    w.sa = std::make_unique<Session>(n, 2, mod, len);
    for (int i = 1; i < n; ++i) w.others.insert(i);
    fakehttp::Client client(rng.u64());
    client.handler = [&](const Req& q) { return w.Handle(q); };
    client.blocked = [&] { w.Stop(); };
    client.batch = [&](size_t) {
      w.batch.clear();
      w.any_blocked = false;
    };
    client.overall = [&] {
      for (auto& l : w.batch) tr.Add(l.ev.s("st", w.any_blocked ? "FAIL" : l.st).raw("rep", l.rep.str()));
      return absl::OkStatus();
    };
    int64_t down = 0, up = 0;
    auto stopwatch = fcp::WallClockStopwatch::Create();
    QuietClock clock(w);
    ProtocolRequestHelper helper(&client, &down, &up, stopwatch.get(), &clock);
    InterruptibleRunner::TimingConfig timing{absl::Milliseconds(1), absl::Seconds(60), absl::Seconds(120)};
    InterruptibleRunner::DiagnosticsConfig diag{ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP,
                                                ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_TIMED_OUT,
                                                ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_COMPLETED,
                                                ProdDiagCode::BACKGROUND_TRAINING_INTERRUPT_HTTP_EXTENDED_TIMED_OUT};
    auto should = [&] { return w.abort.load(); };
    InterruptibleRunner inner(&log, should, timing, diag), outer(&log, should, timing, diag);
    absl::StatusOr<S2C> holder;
    v1::ForwardingInfo f[3];
    for (int i = 0; i < 3; ++i) {
      f[i].set_target_uri_prefix("https://s" + std::to_string(i) + ".test");
      (*f[i].mutable_extra_request_headers())["x-r"] = std::to_string(i);
    }
    v1::ByteStreamResource r1, r2;
    *r1.mutable_data_upload_forwarding_info() = f[1];
    r1.set_resource_name(w.masked);
    *r2.mutable_data_upload_forwarding_info() = f[2];
    r2.set_resource_name(w.nonmasked);
    auto send = HttpSecAggSendToServerImpl::Create(
        "k", &clock, &helper, &inner,
        [&](absl::Time t) {
          return std::make_unique<InterruptibleRunner>(
              &log, [&, t] { return absl::Now() > t && w.abort.load(); }, timing, diag);
        },
        &holder, w.agg, w.tok, f[0], r1, r2, w.has_ckpt ? std::optional<std::string>(w.ckpt) : std::nullopt, rng.chance(50), absl::Seconds(10));
    if (!send.ok()) return 3;
    google::protobuf::Map<std::string, v1::SecureAggregandExecutionInfo> aggregands;
    aggregands["v"].set_modulus(mod);
    // Inputs: mostly right.
    QuantizedTensor q;
    q.values = w.sa->in[0];
    q.dimensions = {len};
    q.bitwidth = 62;
    std::string key = "v";
    bool valid = true;
    if (rng.chance(8)) {
      valid = false;
      switch (rng.in(0, 4)) {
        case 0: key = "w"; break;
        case 1: q.values[rng.in(0, len - 1)] = mod + rng.in(0, 1); break;
        case 2: q.dimensions = {len, 2}; break;
        case 3: q.values.clear(); q.dimensions = {0}; break;
        default: aggregands["v"].set_modulus(rng.pick(std::vector<uint64_t>{0, 1})); break;
      }
    } else if (len == 6 && rng.chance(50)) {
      q.dimensions = {2, 3};
    }
    Publisher publisher(w);
    bool early = rng.chance(w.stops / 4);
    tr.Add(Ev("reset").b("valid", valid).b("ckpt", w.has_ckpt).i("ckpth", H(w.ckpt)).s("masked", w.masked).s("plain", w.nonmasked));
    if (early) w.Stop();
    ComputationResults results;
    results.emplace(key, std::move(q));
    SecAggRunnerFactoryImpl factory_impl;
    SecAggRunnerFactory& factory = factory_impl;
    auto runner = factory.CreateSecAggRunner(
        std::make_unique<Tap>(w, *std::move(send)), std::make_unique<Delegate>(w, std::make_unique<HttpSecAggProtocolDelegate>(aggregands, &holder)),
        &publisher, &log, &outer, w.sa->server->NumberOfNeighbors(), w.sa->server->MinimumSurvivingNeighborsForReconstruction());
    absl::Status st = runner->Run(std::move(results));
    runner.reset();
    int sum = -2;
    if (st.ok() && w.server_ok) {
      std::set<int> all = w.others;
      all.insert(0);
      sum = w.sa->Check(all);
    }
    tr.Add(Ev("ret").s("st", CodeName(st)).i("sum", sum));
  }
  return 0;
}
