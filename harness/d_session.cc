// Drives HttpFederatedProtocol through whole sessions against a scripted server.
// usage: d_session <trace> <seed> <runs> <mode: plain|faults|polls|many|retry>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <map>
#include <optional>
#include <set>

#include "absl/random/random.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_split.h"
#include "absl/strings/strip.h"
#include "fakehttp.h"
#include "fcp/base/clock.h"
#include "fcp/base/digest.h"
#include "fcp/client/attestation/attestation_verifier.h"
#include "fcp/client/federated_protocol_util.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/http_federated_protocol.h"
#include "fcp/client/secagg_runner.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/blob_header.pb.h"
#include "fcp/protos/federated_api.pb.h"
#include "fcp/protos/federatedcompute/aggregations.pb.h"
#include "fcp/protos/federatedcompute/common.pb.h"
#include "fcp/protos/federatedcompute/confidential_aggregations.pb.h"
#include "fcp/protos/federatedcompute/eligibility_eval_tasks.pb.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"
#include "fcp/protos/population_eligibility_spec.pb.h"
#include "google/longrunning/operations.pb.h"
#include "harness.h"

using namespace fcp;
using namespace fcp::client;
using namespace fcp::client::http;
namespace v1 = google::internal::federatedcompute::v1;
using fakehttp::Reply;
using fakehttp::Req;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using google::longrunning::Operation;
using verif::CodeName;
using verif::Ev;
using verif::Rng;

namespace {

struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

struct TheFlags : Flags {
  bool conf = false, lw = false, untie = false, nocompress = false;
  int64_t tsecs = 0, psecs = 0;
  float tj = 0, pj = 0;
  std::vector<int32_t> perm;
  int64_t condition_polling_period_millis() const override { return 1; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return false; }
  bool enable_confidential_aggregation() const override { return conf; }
  bool enable_lightweight_client_report_wire_format() const override { return lw; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untie; }
  bool disable_http_request_body_compression() const override { return nocompress; }
  int64_t federated_training_transient_errors_retry_delay_secs() const override { return tsecs; }
  float federated_training_transient_errors_retry_delay_jitter_percent() const override { return tj; }
  int64_t federated_training_permanent_errors_retry_delay_secs() const override { return psecs; }
  float federated_training_permanent_errors_retry_delay_jitter_percent() const override { return pj; }
  std::vector<int32_t> federated_training_permanent_error_codes() const override { return perm; }
};

struct Publisher : SecAggEventPublisher {
  void PublishStateTransition(secagg::ClientState, size_t, size_t) override {}
  void PublishError() override {}
  void PublishAbort(bool, const std::string&) override {}
  void set_execution_session_id(int64_t) override {}
};

std::chrono::steady_clock::time_point t0;
long long Ms() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
}

std::string Unescape(absl::string_view s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) {
      r += static_cast<char>(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

const char kKey[] = "the-key";

struct Fwd {
  std::string base;
  std::map<std::string, std::string> headers;
};

// What the server knows about a task it has handed out.
struct Task {
  std::string agg, name, session, token, kind;
  int fwd = -1;  // -1: no address
  bool badres = false;
  std::string plan, ckpt, policy;
};

struct World {
  World(Rng& r, verif::Trace& t, std::string m) : rng(r), tr(t), mode(std::move(m)) {}
  Rng& rng;
  verif::Trace& tr;
  std::string mode;
  TheFlags flags;
  int bad = 0;  // percent of failing replies
  std::atomic<bool> abort{false};
  int counter = 0;
  std::string pop;
  std::vector<Fwd> fwds;
  std::map<std::string, std::string> content;  // resource uri -> bytes
  std::map<std::string, std::string> owner;    // resource uri -> task
  std::vector<Task> offered;                   // tasks of the current call
  std::map<std::string, Task> tasks;           // by aggregation id
  std::string expect_data, expect_info;
  std::vector<std::string> expect_names;
  std::map<std::string, int> ops;  // operation -> remaining polls
  std::map<std::string, std::function<void(Operation*, Ev*)>> finish;
  std::map<std::string, std::unique_ptr<confidential_compute::MessageDecryptor>> keys;  // by config bytes
  std::string current_policy;
  bool conf_upload = false;
  // The requests of the batch under way.
  struct Line {
    Ev ev;
    std::string rep;  // rest of the reply
    std::string st;
    bool cancelkind;
  };
  std::vector<Line> batch;
  bool any_blocked = false;

  std::string Id(const std::string& p) {
    std::string s = absl::StrCat(p, ++counter);
    if (rng.chance(15)) s += rng.pick(std::vector<std::string>{"/a b", ":x", "%41", "?q=1", "#f", "+", "a/../b", "&", "=", "~.-_"});
    return s;
  }
  int NewFwd(v1::ForwardingInfo* f) {
    Fwd w;
    int id = fwds.size();
    w.base = absl::StrCat("https://h", id, ".test", rng.chance(30) ? absl::StrCat("/p", id) : "", rng.chance(20) ? "/" : "");
    int n = rng.in(0, 2);
    for (int i = 0; i < n; ++i) w.headers[absl::StrCat("x-r", i)] = absl::StrCat("v", id, "-", i);
    if (f) {
      f->set_target_uri_prefix(w.base);
      for (auto& [k, v] : w.headers) (*f->mutable_extra_request_headers())[k] = v;
    }
    fwds.push_back(w);
    return id;
  }
  // A resource with this content; returns whether it is unusable.
  bool MakeResource(v1::Resource* r, const std::string& task, const std::string& what, const std::string& bytes) {
    if (bad && rng.chance(2)) {
      r->set_uri("");
      return true;
    }
    if (rng.chance(50)) {
      std::string uri = absl::StrCat("https://c.test/", ++counter, "/", what);
      content[uri] = bytes;
      owner[uri] = task;
      r->set_uri(uri);
    } else {
      bool gz = rng.chance(50);
      r->mutable_inline_resource()->set_data(gz ? *CompressWithGzip(bytes) : bytes);
      if (gz) r->mutable_inline_resource()->set_compression_format(v1::ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP);
      if (bad && rng.chance(1)) {
        r->mutable_inline_resource()->set_compression_format(v1::ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED);
        return true;
      }
    }
    return false;
  }
  Task MakeTask(v1::TaskAssignment* t, const std::string& name) {
    Task k;
    k.name = name;
    k.agg = Id("agg");
    k.session = Id("tsess");
    k.token = Id("auth");
    t->set_aggregation_id(k.agg);
    t->set_session_id(k.session);
    t->set_authorization_token(k.token);
    t->set_task_name(k.name);
    if (!(bad && rng.chance(4))) k.fwd = NewFwd(t->mutable_aggregation_data_forwarding_info());
    int kind = rng.in(0, bad ? 20 : 19);
    if (kind < 8) {
      k.kind = "simple";
      t->mutable_aggregation_info();
    } else if (kind < 16) {
      k.kind = "confidential";
      if (!flags.conf && !rng.chance(20)) {
        k.kind = "simple";
        t->mutable_aggregation_info();
      }
    } else if (kind < 20) {
      k.kind = "secure";
      t->mutable_secure_aggregation_info();
    } else {
      k.kind = "none";
    }
    k.plan = Id("plan");
    k.ckpt = Id("ckpt");
    if (MakeResource(t->mutable_plan(), k.name, "plan", k.plan)) k.badres = true;
    if (MakeResource(t->mutable_init_checkpoint(), k.name, "ckpt", k.ckpt)) k.badres = true;
    if (k.kind == "confidential") {
      k.policy = Id("policy");
      if (MakeResource(t->mutable_confidential_aggregation_info()->mutable_data_access_policy(), k.name, "policy", k.policy)) k.badres = true;
    }
    return k;
  }
  static Ev TaskEv(const Task& k) {
    return Ev("t").s("agg", k.agg).s("name", k.name).s("sess", k.session).s("tok", k.token).s("kind", k.kind).i("fwd", k.fwd).b("badres", k.badres);
  }

  // A reply that is an operation: done at once or after some polls.
  Reply StartOperation(std::function<void(Operation*, Ev*)> done, Ev* rep) {
    std::string name = (bad && rng.chance(3) ? "op/" : "operations/") + Id("o");
    ops[name] = rng.chance(mode == "polls" ? 10 : 40) ? 0 : rng.in(1, mode == "polls" ? 6 : 3);
    finish[name] = std::move(done);
    return OperationReply(name, rep);
  }
  Reply OperationReply(const std::string& name, Ev* rep) {
    Operation op;
    op.set_name(name);
    int& left = ops[name];
    long long pause = -1;
    rep->s("op", name).b("okname", absl::StartsWith(name, "operations/"));
    if (left > 0) {
      --left;
      v1::StartTaskAssignmentMetadata m1;
      v1::AdvertiseKeysMetadata m2;
      v1::ShareKeysMetadata m3;
      v1::SubmitSecureAggregationResultMetadata m4;
      pause = rng.pick(std::vector<long long>{0, 1, 7, 500, 999, 1000, 59999, 60000, 60001, 100000, 3600000, -5, -2000, 1500});
      auto set = [&](google::protobuf::Duration* d) {
        d->set_seconds(pause / 1000);
        d->set_nanos(pause % 1000 * 1000000);
      };
      switch (rng.in(0, 5)) {
        case 0: set(m1.mutable_polling_interval()); op.mutable_metadata()->PackFrom(m1); break;
        case 1: set(m2.mutable_polling_interval()); op.mutable_metadata()->PackFrom(m2); break;
        case 2: set(m3.mutable_polling_interval()); op.mutable_metadata()->PackFrom(m3); break;
        case 3: set(m4.mutable_polling_interval()); op.mutable_metadata()->PackFrom(m4); break;
        case 4: pause = -1; break;
        default:
          pause = -1;
          op.mutable_metadata()->PackFrom(m1);
          op.mutable_metadata()->set_value("\xff\xff\xff");
      }
      rep->b("done", false).i("pause", pause).s("err", "").s("what", "");
      return Reply::Ok(op.SerializeAsString());
    }
    op.set_done(true);
    rep->b("done", true).i("pause", -1);
    if (rng.chance(bad / 2)) {
      int c = rng.in(1, 16);
      op.mutable_error()->set_code(c);
      rep->s("err", CodeName(static_cast<absl::StatusCode>(c))).s("what", "");
    } else if (rng.chance(bad / 4)) {
      op.mutable_response()->PackFrom(v1::RejectionInfo());
      rep->s("err", "").s("what", "garbage");
    } else {
      rep->s("err", "");
      finish[name](&op, rep);
    }
    return Reply::Ok(op.SerializeAsString());
  }

  // Identifies a request; the reply is decided here, too.
  Reply Handle(const Req& q);
  Reply Decide(const Req& q, Ev* ev, Ev* rep, bool* safe);
};

Reply World::Handle(const Req& q) {
  Ev ev("req"), rep("rep");
  bool safe = false;
  Reply r = Decide(q, &ev, &rep, &safe);
  std::string st = "OK";
  bool late = absl::StrContains(q.uri, "/upload/v1/media/");
  if (!safe && rng.chance(late ? 2 * bad : bad)) {
    if (late && rng.chance(30)) {
      r = Reply::Http(409);
      st = CodeName(ConvertHttpCodeToStatus(409));
    } else if (rng.chance(12)) {
      r.block = true;
      any_blocked = true;
      st = "CANCELLED";
    } else if (rng.chance(30)) {
      int c = rng.in(1, 16);
      r = Reply::Fail(c);
      st = CodeName(static_cast<absl::StatusCode>(c));
    } else {
      int c = rng.pick(std::vector<int>{400, 401, 403, 404, 409, 429, 499, 501, 503, 504, 418, 500});
      r = Reply::Http(c);
      st = CodeName(ConvertHttpCodeToStatus(c));
    }
  } else if (!safe && rng.chance(bad / 4) &&
             (!absl::StartsWith(q.uri, "https://c.test/") || absl::EndsWith(q.uri, "/spec") || absl::EndsWith(q.uri, "/cfg"))) {
    r = Reply::Ok("\xff\xff\xff\xff garbage");
    st = "GARBAGE";
  }
  batch.push_back({ev, rep.str(), st, safe});
  return r;
}

Reply World::Decide(const Req& q, Ev* ev, Ev* rep, bool* safe) {
  // A resource?
  if (absl::StartsWith(q.uri, "https://c.test/")) {
    ev->s("k", q.method == "GET" && q.consistent && q.body.empty() && content.count(q.uri) ? "fetch" : "bad").s("task", owner[q.uri]).s("uri", q.uri);
    return Reply::Ok(content[q.uri]);
  }
  int fwd = -1;
  std::string rest;
  for (size_t i = 0; i < fwds.size(); ++i) {
    std::string b(absl::StripSuffix(fwds[i].base, "/"));
    if (absl::StartsWith(q.uri, b + "/v1/") || absl::StartsWith(q.uri, b + "/upload/")) {
      fwd = i;
      rest = q.uri.substr(b.size());
    }
  }
  bool proper = fwd >= 0 && q.consistent && q.Header("x-goog-api-key") == kKey;
  if (fwd >= 0) {
    for (int i = 0; i < 2; ++i) {
      std::string h = absl::StrCat("x-r", i);
      proper = proper && q.HasHeader(h) == (fwds[fwd].headers.count(h) > 0) && (!q.HasHeader(h) || q.Header(h) == fwds[fwd].headers[h]);
    }
  }
  std::pair<std::string, std::string> parts = absl::StrSplit(rest, absl::MaxSplits('?', 1));
  std::string verb;
  std::string path = parts.first;
  size_t colon = path.rfind(':');
  if (colon != std::string::npos) {
    verb = path.substr(colon + 1);
    path = path.substr(0, colon);
  }
  std::vector<std::string> raw = absl::StrSplit(path, '/');
  std::vector<std::string> seg;
  for (auto& s : raw) seg.push_back(Unescape(s));
  bool proto = absl::StrContains(parts.second, "%24alt=proto") || absl::StrContains(parts.second, "$alt=proto");
  ev->i("fwd", fwd);
  auto kind = [&](const std::string& k) { ev->s("k", proper ? k : "bad"); };
  auto is = [&](size_t n, std::initializer_list<const char*> want) {
    if (seg.size() != n) return false;
    size_t i = 0;
    for (auto* w : want) {
      if (*w && seg[i] != w) return false;
      ++i;
    }
    return true;
  };
  // "" "v1" ...
  if (proto && q.method == "POST" && is(4, {"", "v1", "eligibilityevaltasks", ""}) && verb == "request") {
    kind(seg[3] == pop ? "eet" : "bad");
    v1::EligibilityEvalTaskResponse resp;
    auto win = [&](v1::RetryWindow* w, long long* lo, long long* hi) {
      if (mode == "retry" && rng.chance(50)) {
        *lo = rng.in(-20, 30), *hi = rng.in(-20, 30);
      } else {
        *lo = rng.in(0, 50) * 1000000ll, *hi = *lo + rng.in(0, 50) * 100000ll;
        if (rng.chance(10)) std::swap(*lo, *hi);
        if (rng.chance(5)) *lo = -*lo;
      }
      w->mutable_delay_min()->set_seconds(*lo / 1000);
      w->mutable_delay_min()->set_nanos(*lo % 1000 * 1000000);
      w->mutable_delay_max()->set_seconds(*hi / 1000);
      w->mutable_delay_max()->set_nanos(*hi % 1000 * 1000000);
    };
    long long a, b, c, d;
    win(resp.mutable_retry_window_if_accepted(), &a, &b);
    win(resp.mutable_retry_window_if_rejected(), &c, &d);
    rep->il("acc", std::vector<long long>{a, b}).il("rej", std::vector<long long>{c, d});
    std::string session = Id("sess");
    resp.set_session_id(session);
    int tf = -1;
    if (!rng.chance(bad / 4)) tf = NewFwd(resp.mutable_task_assignment_forwarding_info());
    rep->s("sess", session).i("taf", tf);
    std::string what;
    bool badres = false, spec = false;
    int policies = 0;
    int k = rng.in(0, 19);
    bool many = mode == "many";
    if (k < (many ? 17 : 12)) {
      what = "task";
      auto* t = resp.mutable_eligibility_eval_task();
      t->set_execution_id("exec");
      Task e;
      e.name = "eet";
      e.plan = Id("eplan");
      e.ckpt = Id("eckpt");
      if (rng.chance(70)) {
        badres |= MakeResource(t->mutable_plan(), "eet", "plan", e.plan);
        badres |= MakeResource(t->mutable_init_checkpoint(), "eet", "ckpt", e.ckpt);
      } else {
        e.plan = e.ckpt = "";
      }
      if (rng.chance(many ? 95 : 50)) {
        spec = true;
        PopulationEligibilitySpec s;
        policies = rng.chance(70) ? 1 : 0;
        if (policies) s.add_eligibility_policies()->set_name("p");
        for (int i = 0; i < 3; ++i) s.add_task_info()->set_task_name(absl::StrCat("t", i));
        bool b = MakeResource(t->mutable_population_eligibility_spec(), "eet", "spec", s.SerializeAsString());
        badres = policies ? badres || b : b;
      }
      offered = {e};
    } else if (k < 18) {
      what = "none";
      resp.mutable_no_eligibility_eval_configured();
    } else if (k < 19 || !bad) {
      what = "reject";
      resp.mutable_rejection_info();
    } else {
      what = "unknown";
    }
    rep->s("what", what).b("badres", badres).b("spec", spec).i("policies", policies);
    return Reply::Ok(resp.SerializeAsString());
  }
  if (proto && q.method == "POST" && is(6, {"", "v1", "populations", "", "eligibilityevaltasks", ""}) && verb == "reportresult") {
    v1::ReportEligibilityEvalTaskResultRequest m;
    kind(seg[3] == pop && m.ParseFromString(q.body) ? "eetres" : "bad");
    ev->s("sess", seg[5]).i("code", m.status_code());
    return Reply::Ok("");
  }
  if (proto && q.method == "POST" && is(6, {"", "v1", "populations", "", "taskassignments", ""})) {
    ev->s("sess", seg[5]);
    if (verb == "start") {
      v1::StartTaskAssignmentRequest m;
      kind(seg[3] == pop && m.ParseFromString(q.body) ? "start" : "bad");
      ev->s("info", m.has_task_eligibility_info() ? m.task_eligibility_info().SerializeAsString() : "none");
      return StartOperation(
          [this](Operation* op, Ev* rep) {
            v1::StartTaskAssignmentResponse resp;
            int k = rng.in(0, 9);
            if (k == 0) {
              resp.mutable_rejection_info();
              rep->s("what", "reject");
            } else if (k == 1 && bad) {
              rep->s("what", "unknown");
            } else {
              Task t = MakeTask(resp.mutable_task_assignment(), absl::StrCat("task", rng.in(0, 3)));
              offered = {t};
              rep->s("what", "task").raw("t", TaskEv(t).str());
            }
            op->mutable_response()->PackFrom(resp);
          },
          rep);
    }
    if (verb == "performmultiple") {
      v1::PerformMultipleTaskAssignmentsRequest m;
      kind(seg[3] == pop && m.ParseFromString(q.body) ? "multi" : "bad");
      ev->b("names", std::vector<std::string>(m.task_names().begin(), m.task_names().end()) == expect_names);
      v1::PerformMultipleTaskAssignmentsResponse resp;
      offered.clear();
      std::string list = "[";
      for (auto& n : expect_names) {
        if (rng.chance(25)) continue;
        Task t = MakeTask(resp.add_task_assignments(), n);
        list += (offered.empty() ? "" : ",") + TaskEv(t).str();
        offered.push_back(t);
      }
      rep->raw("ts", list + "]");
      return Reply::Ok(resp.SerializeAsString());
    }
    if (verb == "reportresult") {
      v1::ReportTaskResultRequest m;
      kind(seg[3] == pop && m.ParseFromString(q.body) ? "report" : "bad");
      ev->s("agg", m.aggregation_id()).s("name", m.task_name()).i("code", m.computation_status_code());
      return Reply::Ok("");
    }
  }
  for (auto& [res, conf] : std::map<std::string, bool>{{"aggregations", false}, {"confidentialaggregations", true}}) {
    if (!(proto && q.method == "POST" && is(6, {"", "v1", res.c_str(), "", "clients", ""}))) continue;
    ev->s("agg", seg[3]).s("tok", seg[5]).b("conf", conf);
    if (verb == "startdataupload") {
      v1::StartAggregationDataUploadRequest m;
      kind(m.ParseFromString(q.body) ? "upstart" : "bad");
      bool c = conf;
      std::string agg = seg[3];
      return StartOperation(
          [this, c, agg](Operation* op, Ev* rep) {
            v1::StartAggregationDataUploadResponse a;
            v1::StartConfidentialAggregationDataUploadResponse b;
            int apf = -1, upf = -1;
            std::string res = Id("res"), cl = c || rng.chance(70) ? Id("client") : "";
            bool badres = false;
            auto fill = [&](auto& m) {
              if (!rng.chance(bad / 5)) apf = NewFwd(m.mutable_aggregation_protocol_forwarding_info());
              if (!rng.chance(bad / 5)) upf = NewFwd(m.mutable_resource()->mutable_data_upload_forwarding_info());
              m.mutable_resource()->set_resource_name(res);
              m.set_client_token(cl);
            };
            if (c) {
              fill(b);
              auto d = std::make_unique<confidential_compute::MessageDecryptor>();
              auto pk = d->GetPublicKey([](absl::string_view) { return "sig"; }, -7);
              if (!pk.ok()) _exit(3);
              v1::ConfidentialEncryptionConfig cfg;
              cfg.set_public_key(*pk);
              std::string bytes = cfg.SerializeAsString();
              keys[bytes] = std::move(d);
              badres = MakeResource(b.mutable_encryption_config(), "cfg", "cfg", bytes);
              op->mutable_response()->PackFrom(b);
            } else {
              fill(a);
              op->mutable_response()->PackFrom(a);
            }
            rep->s("what", "upload").i("apf", apf).i("upf", upf).s("res", res).s("cl", cl).b("badres", badres).b("conf", c);
          },
          rep);
    }
    if (verb == "submit") {
      v1::SubmitAggregationResultRequest m;
      kind(m.ParseFromString(q.body) ? "submit" : "bad");
      ev->s("res", m.resource_name());
      return Reply::Ok("");
    }
    if (verb == "abort") {
      v1::AbortAggregationRequest m;
      kind(m.ParseFromString(q.body) ? "abort" : "bad");
      ev->i("code", m.status().code());
      *safe = true;
      return Reply::Ok("");
    }
  }
  if (proto && q.method == "POST" && is(6, {"", "v1", "secureaggregations", "", "clients", ""}) && verb == "start") {
    kind("secstart");
    ev->s("agg", seg[3]).s("tok", seg[5]);
    return StartOperation(
        [this](Operation* op, Ev* rep) {
          v1::StartSecureAggregationResponse m;
          NewFwd(m.mutable_secagg_protocol_forwarding_info());
          NewFwd(m.mutable_masked_result_resource()->mutable_data_upload_forwarding_info());
          m.mutable_masked_result_resource()->set_resource_name(Id("mres"));
          NewFwd(m.mutable_nonmasked_result_resource()->mutable_data_upload_forwarding_info());
          m.mutable_nonmasked_result_resource()->set_resource_name(Id("nres"));
          int e = rng.in(2, 9), s = rng.in(2, e);
          m.mutable_protocol_execution_info()->set_expected_number_of_clients(e);
          m.mutable_protocol_execution_info()->set_minimum_surviving_clients_for_reconstruction(s);
          m.set_client_token(rng.chance(70) ? Id("client") : "");
          rep->s("what", "secagg").i("n", e).i("surviving", s);
          op->mutable_response()->PackFrom(m);
        },
        rep);
  }
  std::string tail = rest.substr(0, rest.find('?'));
  if (absl::StartsWith(tail, "/upload/v1/media/") && q.method == "POST" && absl::StrContains(parts.second, "upload_protocol=raw")) {
    kind("upload");
    ev->s("res", Unescape(tail.substr(strlen("/upload/v1/media/"))));
    std::string how = "other";
    if (q.body == expect_data) how = "plain";
    absl::string_view view = q.body;
    auto h = confidential_compute::DecodeAndConsumeClientPayloadHeader(view);
    if (how == "other" && h.ok()) {
      confidentialcompute::BlobHeader bh;
      if (bh.ParseFromString(h->serialized_blob_header) && bh.access_policy_sha256() == ComputeSHA256(current_policy)) {
        for (auto& [cfg, d] : keys) {
          auto p = d->Decrypt(view, h->serialized_blob_header, h->encrypted_symmetric_key, h->serialized_blob_header, h->encapsulated_public_key);
          if (!p.ok()) continue;
          std::string data = *p;
          if (h->is_gzip_compressed) {
            auto u = UncompressWithGzip(data);
            if (u.ok()) data = std::string(*u);
          }
          if (data == expect_data) {
            how = "sealed";
            // Which of the keys handed out it is sealed to.
            int n = 0;
            for (auto& [c2, d2] : keys) {
              ++n;
              if (c2 == cfg) ev->i("key", std::hash<std::string>()(cfg) % 1000000007);
            }
          }
        }
      }
    }
    ev->s("how", how);
    return Reply::Ok("");
  }
  if (proto && absl::StartsWith(tail, "/v1/")) {
    std::string name = Unescape(tail.substr(4));
    if (q.method == "GET") {
      kind("get");
      ev->s("op", name);
      if (ops.count(name)) return OperationReply(name, rep);
      return Reply::Http(404);
    }
    if (q.method == "POST" && verb == "cancel") {
      kind("cancel");
      ev->s("op", Unescape(tail.substr(4, tail.size() - 4 - strlen(":cancel"))));
      *safe = true;
      return Reply::Ok("");
    }
  }
  ev->s("k", "bad").s("uri", q.uri);
  return Reply::Http(404);
}

struct Runner : SecAggRunner {
  Runner(World& w, int64_t n, int64_t s) : w(w), n(n), s(s) {}
  absl::Status Run(ComputationResults) override {
    bool ok = !w.rng.chance(w.bad);
    w.tr.Add(Ev("secagg").i("n", n).i("surviving", s).b("ok", ok));
    return ok ? absl::OkStatus() : absl::UnavailableError("secagg");
  }
  World& w;
  int64_t n, s;
};
struct Factory : SecAggRunnerFactory {
  explicit Factory(World& w) : w(w) {}
  std::unique_ptr<SecAggRunner> CreateSecAggRunner(std::unique_ptr<SecAggSendToServerBase>, std::unique_ptr<SecAggProtocolDelegate>,
                                                   SecAggEventPublisher*, LogManager*, InterruptibleRunner*, int64_t n, int64_t s) override {
    return std::make_unique<Runner>(w, n, s);
  }
  World& w;
};

struct Verifier : attestation::AttestationVerifier {
  explicit Verifier(World& w) : w(w) {}
  absl::StatusOr<confidential_compute::OkpKey> Verify(const absl::Cord& policy, const v1::ConfidentialEncryptionConfig& cfg) override {
    bool ok = !w.rng.chance(w.bad);
    w.tr.Add(Ev("verify").b("ok", ok).b("policy", std::string(policy) == w.current_policy)
                 .i("key", std::hash<std::string>()(cfg.SerializeAsString()) % 1000000007));
    if (!ok) return absl::FailedPreconditionError("not verified");
    auto cwt = confidential_compute::OkpCwt::Decode(cfg.public_key());
    if (!cwt.ok() || !cwt->public_key) _exit(3);
    return *cwt->public_key;
  }
  World& w;
};

// Time passes at once; what was waited for is recorded.
struct QuietClock : Clock {
  explicit QuietClock(World& w) : w(w) {}
  absl::Time Now() override { return absl::Now(); }
  void Sleep(absl::Duration d) override {
    w.tr.Add(Ev("sleep").i("ms", absl::ToInt64Milliseconds(d)));
    if (w.rng.chance(w.bad / 4)) {
      w.abort = true;
      w.tr.Add(Ev("stop"));
    }
  }
  absl::Time NowLocked() override { return absl::Now(); }
  void ScheduleWakeup(absl::Time) override {}
  World& w;
};

std::string S(const std::variant<std::string, absl::Cord>& v) {
  return std::holds_alternative<std::string>(v) ? std::get<std::string>(v) : std::string(std::get<absl::Cord>(v));
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  verif::Trace tr(argv[1]);
  Rng rng(strtoull(argv[2], nullptr, 10));
  int runs = atoi(argv[3]);
  std::string mode = argv[4];
  Log log;
  Publisher publisher;
  for (int run = 0; run < runs; ++run) {
    t0 = std::chrono::steady_clock::now();
    auto wp = std::make_unique<World>(rng, tr, mode);
    World& w = *wp;
    w.bad = mode == "plain" ? 0 : mode == "polls" ? rng.pick(std::vector<int>{0, 4, 10}) : rng.pick(std::vector<int>{0, 4, 8, 16});
    w.flags.conf = rng.chance(70);
    w.flags.untie = rng.chance(50);
    w.flags.lw = rng.chance(50);
    w.flags.nocompress = rng.chance(30);
    w.flags.tsecs = rng.in(0, 1000);
    w.flags.psecs = rng.in(0, 100000);
    auto jitter = [&] { return rng.pick(std::vector<float>{0, 0.1f, 0.5f, 1, 2, -1}); };
    w.flags.tj = jitter();
    w.flags.pj = jitter();
    int np = rng.in(0, 8);
    for (int i = 0; i < np; ++i) w.flags.perm.push_back(rng.in(1, 16));
    w.pop = w.Id("pop");
    w.NewFwd(nullptr);
    w.fwds[0].headers.clear();
    std::vector<std::string> perm;
    for (int c : w.flags.perm) perm.push_back(CodeName(static_cast<absl::StatusCode>(c)));
    auto pct = [](float f) { return std::min(100ll, std::max(0ll, llround(f * 100.0))); };
    tr.Add(Ev("reset").b("conf", w.flags.conf).sl("perm", perm).i("tsecs", w.flags.tsecs * 1000).i("tj", pct(w.flags.tj))
               .i("psecs", w.flags.psecs * 1000).i("pj", pct(w.flags.pj)));
    fakehttp::Client client(rng.u64());
    client.blocked = [&] { w.abort = true; };
    client.handler = [&](const Req& q) { return w.Handle(q); };
    client.batch = [&](size_t) {
      w.batch.clear();
      w.any_blocked = false;
    };
    client.overall = [&] {
      for (auto& l : w.batch) {
        Ev e = l.ev;
        tr.Add(e.s("st", w.any_blocked ? "CANCELLED" : l.st).raw("rep", l.rep).i("t", Ms()));
      }
      return absl::OkStatus();
    };
    QuietClock clock(w);
    absl::BitGen gen{std::seed_seq{static_cast<uint32_t>(rng.u64()), static_cast<uint32_t>(rng.u64())}};
    auto p = std::make_unique<HttpFederatedProtocol>(
        &clock, &log, &w.flags, &client, std::make_unique<Factory>(w), &publisher, nullptr, std::make_unique<Verifier>(w), w.fwds[0].base, kKey,
        w.pop, "retry", "cv", "att", [&] { return w.abort.load(); }, std::move(gen),
        InterruptibleRunner::TimingConfig{absl::Milliseconds(1), absl::Seconds(60), absl::Seconds(120)});
    auto query = [&](int chance) {
      if (!rng.chance(chance)) return;
      if (mode == "retry" && rng.chance(30)) usleep(rng.in(0, 20) * 1000);
      long long a = Ms();
      auto r = p->GetLatestRetryWindow();
      long long b = Ms();
      auto ms = [](const google::protobuf::Duration& d) { return d.seconds() * 1000 + d.nanos() / 1000000; };
      bool neg = r.delay_min().seconds() < 0 || r.delay_min().nanos() < 0;
      tr.Add(Ev("retry").i("min", neg ? -1 : ms(r.delay_min())).i("max", ms(r.delay_max())).i("t0", a).i("t1", b));
    };
    auto begin = [&](Ev e) {
      // The wish to stop may go away between calls, and arise before one.
      w.abort = rng.chance(w.bad / 4);
      tr.Add(e.b("stop", w.abort.load()));
    };
    auto end = [&](Ev e) {
      tr.Add(e.i("t", Ms()));
      query(mode == "retry" ? 90 : 50);
    };
    query(mode == "retry" ? 50 : 20);
    // Eligibility.
    begin(Ev("call").s("f", "eet"));
    auto er = p->EligibilityEvalCheckin([](const auto&) {});
    bool task = false, go = false, multi_ok = false;
    {
      Ev e("ret");
      e.s("st", CodeName(er.status()));
      if (er.ok()) {
        if (auto* t = std::get_if<FederatedProtocol::EligibilityEvalTask>(&*er)) {
          bool pay = !w.offered.empty() && S(t->payloads.plan) == w.offered[0].plan && S(t->payloads.checkpoint) == w.offered[0].ckpt &&
                     t->execution_id == "exec";
          e.s("what", "enabled").b("pay", pay);
          task = go = true;
          multi_ok = t->population_eligibility_spec.has_value();
        } else if (auto* d = std::get_if<FederatedProtocol::EligibilityEvalDisabled>(&*er)) {
          e.s("what", "disabled").b("pay", true);
          go = true;
          multi_ok = d->population_eligibility_spec.has_value();
        } else {
          e.s("what", "rejected").b("pay", true);
        }
      }
      end(e);
    }
    if (go && task && rng.chance(10)) {
      absl::StatusCode c = static_cast<absl::StatusCode>(rng.in(1, 16));
      begin(Ev("call").s("f", "eeterr").i("code", static_cast<int>(c)));
      p->ReportEligibilityEvalError(absl::Status(c, "x"));
      end(Ev("ret").s("st", "OK"));
      go = false;
    }
    std::vector<std::optional<std::string>> open;  // tasks to report
    std::string default_agg;
    auto describe = [&](const FederatedProtocol::TaskAssignment& t) {
      Task* k = nullptr;
      for (auto& o : w.offered)
        if (o.agg == t.aggregation_session_id) k = &o;
      if (!k) return false;
      w.tasks[k->agg] = *k;
      return t.task_name == k->name && S(t.payloads.plan) == k->plan && S(t.payloads.checkpoint) == k->ckpt &&
             (k->kind == "secure") == t.sec_agg_info.has_value() &&
             (k->kind == "confidential") == t.confidential_agg_info.has_value() &&
             (!t.confidential_agg_info || std::string(t.confidential_agg_info->data_access_policy) == k->policy);
    };
    if (go && multi_ok && rng.chance(mode == "many" ? 95 : 50)) {
      int n = rng.in(1, 4);
      w.expect_names.clear();
      for (int i = 0; i < n; ++i) w.expect_names.push_back(absl::StrCat("m", i));
      w.offered.clear();
      begin(Ev("call").s("f", "multi"));
      auto r = p->PerformMultipleTaskAssignments(w.expect_names, [](size_t) {});
      Ev e("ret");
      e.s("st", CodeName(r.status()));
      std::string list = "[";
      if (r.ok()) {
        for (auto& [name, t] : r->task_assignments) {
          list += (list == "[" ? "" : ",") +
                  Ev("m").s("name", name).s("st", CodeName(t.status())).s("agg", t.ok() ? t->aggregation_session_id : "").b("pay", t.ok() && describe(*t)).str();
          if (t.ok()) open.push_back(t->aggregation_session_id);
        }
      }
      end(e.raw("ts", list + "]"));
    }
    if (go && (open.empty() || rng.chance(50))) {
      std::optional<TaskEligibilityInfo> info;
      std::string is = "none";
      if (task) {
        info.emplace();
        auto* tw = info->add_task_weights();
        tw->set_task_name(absl::StrCat("w", rng.in(0, 99)));
        tw->set_weight(1);
        is = info->SerializeAsString();
      }
      w.offered.clear();
      begin(Ev("call").s("f", "checkin").s("info", is));
      auto r = p->Checkin(info, [](const auto&) {});
      Ev e("ret");
      e.s("st", CodeName(r.status()));
      if (r.ok()) {
        if (auto* t = std::get_if<FederatedProtocol::TaskAssignment>(&*r)) {
          e.s("what", "accepted").s("agg", t->aggregation_session_id).b("pay", describe(*t));
          open.push_back(std::nullopt);
          default_agg = t->aggregation_session_id;
        } else {
          e.s("what", "rejected").s("agg", "").b("pay", true);
        }
      }
      end(e);
    }
    // Reports, in any order; some tasks may never be reported.
    while (!open.empty()) {
      size_t i = rng.in(0, open.size() - 1);
      auto id = open[i];
      open.erase(open.begin() + i);
      if (rng.chance(10)) continue;
      std::string agg = id ? *id : default_agg;
      Task& k = w.tasks[agg];
      absl::Status st;
      if (rng.chance(20)) {
        engine::PhaseOutcome o = rng.chance(50) ? engine::PhaseOutcome::ERROR : engine::PhaseOutcome::INTERRUPTED;
        begin(Ev("call").s("f", "notcompleted").s("agg", agg).i("code", o == engine::PhaseOutcome::ERROR ? 13 : 1));
        st = p->ReportNotCompleted(o, absl::Seconds(1), id);
      } else {
        w.expect_data = "result " + w.Id("data");
        w.current_policy = k.policy;
        ComputationResults res;
        std::string path = k.kind;
        if (!w.flags.conf) path = k.kind == "secure" && rng.chance(70) ? "secure" : "simple";
        if (path == "secure") {
          QuantizedTensor q;
          q.values = {1, 2, 3};
          q.bitwidth = 4;
          res.emplace("q", std::move(q));
          if (rng.chance(50)) res.emplace("tf", TFCheckpoint(w.expect_data));
        } else if (w.flags.lw && (!w.flags.untie || rng.chance(50))) {
          res.emplace("fc", FCCheckpoint(w.expect_data));
        } else {
          res.emplace("tf", TFCheckpoint(w.expect_data));
        }
        begin(Ev("call").s("f", "report").s("agg", agg).s("path", path));
        st = p->ReportCompleted(std::move(res), absl::Seconds(1), id);
      }
      end(Ev("ret").s("st", CodeName(st)));
      if (id && rng.chance(5)) {
        // An unknown task is refused without any request.
        begin(Ev("call").s("f", "unknown"));
        st = rng.chance(50) ? p->ReportCompleted({}, absl::Seconds(1), "no-such") : p->ReportNotCompleted(engine::PhaseOutcome::ERROR, absl::Seconds(1), "no-such");
        end(Ev("ret").s("st", CodeName(st)));
      }
    }
    query(80);
    if (mode == "retry") {
      query(80);
      absl::BitGen gen{std::seed_seq{static_cast<uint32_t>(rng.u64())}};
      auto dur = [](long long ms) {
        google::protobuf::Duration d;
        d.set_seconds(ms / 1000);
        d.set_nanos(ms % 1000 * 1000000);
        return d;
      };
      auto ms = [](const google::protobuf::Duration& d) { return d.seconds() * 1000 + d.nanos() / 1000000; };
      std::vector<long long> pool = {0, 1, -1, 10, 1000, 60000, 100000000, -100000000, -70, 1500};
      for (int i = 0; i < 4; ++i) {
        long long lo = rng.pick(pool), hi = rng.chance(50) ? lo + rng.in(0, 2000) : rng.pick(pool);
        long long a = Ms();
        absl::Time base = absl::Now();
        absl::Time got = PickRetryTimeFromRange(dur(lo), dur(hi), gen);
        long long passed = absl::ToInt64Milliseconds(got - base);
        tr.Add(Ev("pick").i("min", lo).i("max", hi).i("got", passed - (Ms() - a)).i("t0", a).i("t1", Ms()));
        long long target = rng.in(0, 1000) * 100;
        double j = rng.pick(std::vector<double>{0, 0.01, 0.25, 0.5, 0.99, 1, 1.5, 1e300, -0.5, -1e300});
        auto w = GenerateRetryWindowFromTargetDelay(absl::Milliseconds(target), j, gen);
        tr.Add(Ev("delay").i("target", target).i("j", std::min(100.0, std::max(0.0, j * 100))).i("min", ms(w.delay_min())).i("max", ms(w.delay_max())));
        long long off = rng.in(-50, 50) * rng.pick(std::vector<int>{1, 100, 100000});
        a = Ms();
        absl::Time moment = absl::Now() + absl::Milliseconds(off);
        long long m0 = Ms() + off;
        w = GenerateRetryWindowFromRetryTime(moment);
        tr.Add(Ev("left").i("moment", m0).i("t0", a).i("t1", Ms()).i("min", ms(w.delay_min())).i("max", ms(w.delay_max())));
      }
    }
  }
  return 0;
}
