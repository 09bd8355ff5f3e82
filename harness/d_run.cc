// Runs whole client runs against a scripted server, device and model, and writes
// down everything that crosses the runner's interfaces.
// usage: d_run <trace> <seed> <runs> <mode> <scratch directory>
//   modes: mix    everything may happen
//          tidy   nothing fails (tasks, models and uploads as they should be)
//          multi  many tasks at once
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

#include "fcp/base/clock.h"
#include "fcp/client/engine/tflite_wrapper.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/fl_runner.h"
#include "fcp/client/lc_runner.h"
#include "fcp/client/opstats/opstats_example_store.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
#include "fcp/client/opstats/opstats_utils.h"
#include "fcp/client/phase_logger_impl.h"
#include "fcp/tensorflow/external_dataset.h"
#include "google/protobuf/wrappers.pb.h"
#include "harness.h"
#include "openssl/sha.h"
#include "stub/EventPublisher.h"
#include "tensorflow/core/example/example.pb.h"

using namespace fcp::client;
using google::internal::federated::plan::ClientOnlyPlan;
using google::internal::federated::plan::ExampleQuerySpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::RetryWindow;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using opstats::OperationalStats;
using opstats::OpStatsSequence;
using verif::CodeName;
using verif::Ev;
using verif::Rng;

namespace {

constexpr int64_t kBase = 1700000000;
std::string g_dir;
constexpr int g_nap = 100;

std::string Join(const std::vector<std::string>& v, const char* sep = ",") {
  std::string r;
  for (auto& s : v) r += (r.empty() ? "" : sep) + s;
  return r;
}
std::string List(const std::vector<std::string>& v) { return "[" + Join(v) + "]"; }
std::string Sha(const std::string& s) {
  unsigned char d[32];
  SHA256(reinterpret_cast<const unsigned char*>(s.data()), s.size(), d);
  return std::string(reinterpret_cast<char*>(d), 32);
}
absl::Status Fail(int code, const std::string& m) { return absl::Status(static_cast<absl::StatusCode>(code), m); }

// ---- what is going to happen ------------------------------------------------------
struct Out {  // one output of a task
  std::string name, type;
  std::vector<int64_t> dims, vals;
};
struct Query {
  std::string uri;
  std::string criteria;
  int make = 0;       // status code of creating the iterator
  int have = 0;       // examples there are
  int error = 0;      // status code after the last one; 0: end of data
  int read = 0;       // examples each reader of the model asks for
  int readers = 1;    // that read at the same time
  std::vector<Out> outs;   // example queries: output name, delivered type, values
  std::vector<std::string> want;  // example queries: the type in the plan, per output
  std::set<std::string> missing;  // outputs the answer does not have
  bool parses = true;
};
struct Task {
  std::string name, session;
  std::string kind = "tf";
  std::string defect;  // "", "parse", "fetch", "noio", "noagg", "inputs", "const"
  bool in = true, out = true, cord = false, conf = false;
  int secagg = -1;     // minimum clients; -1: not told
  int fetch = 0;       // status code of fetching its payloads
  std::vector<Out> outs;
  std::vector<Query> queries;
  std::string model = "ok";
  bool local = false;
  bool goes_on = false;                     // reads on when a source fails
  std::map<std::string, std::string> constants;  // further inputs of the model
  std::string input, output;   // checkpoints
  int minsep = -1;
  std::string plan;            // serialized
  std::string merged;          // merged criteria
};
struct Policy {
  std::string kind;  // da, tf, un
  std::string name;
  Query q;
  int min = 0;
  std::string tf = "ok";
  std::vector<std::string> pass;
};
struct Spec {
  bool has = false;
  struct T { std::string name; int mode; std::vector<int> pols; };
  std::vector<T> tasks;
  std::vector<Policy> pols;
};

struct TheFlags : Flags {
  bool lw = false, untie = false, cid = false, lwid = false, rec = false, conf = false, tflite = true, phases = false,
       tflog = false;
  int64_t condition_polling_period_millis() const override { return 0; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return tflog; }
  bool use_tflite_training() const override { return tflite; }
  bool enable_computation_id() const override { return cid; }
  bool enable_lightweight_computation_id() const override { return lwid; }
  bool enable_lightweight_client_report_wire_format() const override { return lw; }
  bool untie_lw_client_report_format_support_from_requiring_lw_report() const override { return untie; }
  bool enable_phase_stats_logging() const override { return phases; }
  bool enable_native_example_query_recording() const override { return rec; }
  bool confidential_agg_in_selector_context() const override { return conf; }
};

struct World {
  verif::Trace* log;
  Rng* rng;
  TheFlags flags;
  std::string session, population;
  std::vector<Policy> pols;
  std::map<std::string, Task> tasks;        // by name
  std::map<std::string, Query*> sources;    // by collection and criteria
  absl::Time started = absl::InfiniteFuture();   // the first computation
  std::map<std::string, absl::Time> used;        // first example read for a computation, by collection
  std::string model_id;
  int fail = 0;         // percent of failing files, commits and reads
  int polls = 0, stop_at = -1;
  int windows = 0;
  NetworkStats net, fsnet;
  int temps = 0;

  void Spend() {
    net.bytes_downloaded += rng->in(1, 9);
    net.bytes_uploaded += rng->in(1, 9);
    net.network_duration += absl::Milliseconds(rng->in(1, 9));
  }
  bool Fails() { return rng->chance(fail); }
  void Log(const Ev& e) { (*log)(e); }
};
World* g;

// ---- the device ------------------------------------------------------------------
struct TheLog : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};

std::string QueryResult(const Query& q) {
  if (!q.parses) return "\xff\xff\xff";
  ExampleQueryResult r;
  for (auto& o : q.outs) {
    if (q.missing.count(o.name)) continue;
    auto& v = (*r.mutable_vector_data()->mutable_vectors())["v_" + o.name];
    if (o.type == "int32") { v.mutable_int32_values(); for (auto x : o.vals) v.mutable_int32_values()->add_value(x); }
    if (o.type == "int64") { v.mutable_int64_values(); for (auto x : o.vals) v.mutable_int64_values()->add_value(x); }
    if (o.type == "bool") { v.mutable_bool_values(); for (auto x : o.vals) v.mutable_bool_values()->add_value(x % 2); }
    if (o.type == "float") { v.mutable_float_values(); for (auto x : o.vals) v.mutable_float_values()->add_value(x); }
    if (o.type == "double") { v.mutable_double_values(); for (auto x : o.vals) v.mutable_double_values()->add_value(x); }
    if (o.type == "string") { v.mutable_string_values(); for (auto x : o.vals) v.mutable_string_values()->add_value(std::to_string(x)); }
    if (o.type == "bytes") { v.mutable_bytes_values(); for (auto x : o.vals) v.mutable_bytes_values()->add_value(std::to_string(x)); }
  }
  r.mutable_stats()->set_example_count_for_logs(q.have);
  return r.SerializeAsString();
}

std::string Pairs(const std::map<std::string, std::string>& m) {
  std::vector<std::string> v;
  for (auto& [k, x] : m) v.push_back(Ev("p").s("k", k).s("v", x).str());
  return List(v);
}

struct Iter : ExampleIterator {
  Query q;
  bool result;
  int n = 0;
  bool over = false, fed = false;
  std::atomic<int> inside{0};
  absl::StatusOr<std::string> Next() override {
    if (inside.exchange(1) || over) g->Log(Ev("misuse").s("u", q.uri).b("over", over));
    if (q.readers > 1) usleep(g_nap);
    if (fed && !g->used.count(q.uri)) g->used[q.uri] = absl::Now();
    auto r = Get();
    over = absl::IsOutOfRange(r.status());
    inside = 0;
    return r;
  }
  absl::StatusOr<std::string> Get() {
    if (result) {
      if (q.error) return Fail(q.error, "source");
      if (n++ > 0) return absl::OutOfRangeError("end");
      return QueryResult(q);
    }
    if (n >= q.have) {
      if (q.error) return Fail(q.error, "source");
      return absl::OutOfRangeError("end");
    }
    return q.uri + "#" + std::to_string(n++);
  }
  void Close() override {}
};

struct Env : SimpleTaskEnvironment {
  bool nowhere = false;  // no place for a history
  std::string GetBaseDir() override { return nowhere ? "none" : g_dir; }
  std::string GetCacheDir() override { return g_dir; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override {
    return CreateExampleIterator(s, SelectorContext());
  }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s,
                                                                         const SelectorContext& c) override {
    const auto& p = c.computation_properties();
    const auto& f = p.federated();
    Ev e("look");
    auto q = g->sources.find(s.collection_uri() + " " + s.criteria().value());
    bool known = q != g->sources.end();
    e.s("u", known ? s.collection_uri() : "?" + s.collection_uri());
    e.s("kind", p.has_federated() ? "fed" : p.has_eligibility_eval() ? "elig" : p.has_local_compute() ? "local" : "other");
    if (p.has_local_compute()) {
      std::map<std::string, std::string> res(p.local_compute().input_resource_map().begin(),
                                             p.local_compute().input_resource_map().end());
      e.s("in", p.local_compute().input_dir()).s("out", p.local_compute().output_dir()).raw("res", Pairs(res));
    }
    e.s("session", p.session_name());
    e.s("pop", p.has_federated() ? f.population_name() : p.eligibility_eval().population_name());
    e.s("task", f.task_name());
    std::string id = p.has_federated() ? f.computation_id() : p.eligibility_eval().computation_id();
    auto t = g->tasks.find(f.task_name());
    if (id.empty()) e.s("id", "");
    else if (!p.has_federated()) e.s("id", known && id == Sha(s.criteria().SerializeAsString()) ? "criteria" : "other");
    else if (t == g->tasks.end()) e.s("id", "other");
    else e.s("id", id == Sha(t->second.plan) ? "plan" : id == Sha(t->second.merged) ? "criteria" : "other");
    e.b("result", p.example_iterator_output_format() == QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT);
    e.s("agg", f.has_simple_aggregation() ? "simple" : f.has_secure_aggregation() ? "secure"
               : f.has_confidential_aggregation() ? "conf" : "none");
    e.i("min", f.secure_aggregation().minimum_clients_in_server_visible_aggregate());
    const auto& h = f.historical_context();
    e.i("last", h.has_last_successful_contribution_time()
                    ? h.last_successful_contribution_time().seconds() - kBase : -1);
    std::map<std::string, std::string> acc;
    for (auto& [u, ts] : h.collection_first_access_times())
      acc[u] = Ev("a").s("u", u).i("at", ts.seconds() - kBase).str();
    std::vector<std::string> av;
    for (auto& [u, x] : acc) av.push_back(x);
    e.raw("acc", List(av));
    int made = known ? q->second->make : 0;
    e.i("made", made);
    g->Log(e);
    if (made) return Fail(made, "cannot look");
    auto i = std::make_unique<Iter>();
    if (known) i->q = *q->second;
    i->fed = p.has_federated();
    i->result = p.example_iterator_output_format() == QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT;
    return std::unique_ptr<ExampleIterator>(std::move(i));
  }
  bool OnTaskCompleted(const TaskResultInfo& r) override {
    std::vector<std::string> q;
    for (auto& x : r.example_iterator_queries().query())
      q.push_back(Ev("q").s("u", x.collection_uri()).i("n", x.example_count()).str());
    g->Log(Ev("done").b("ok", r.result()).b("has", r.has_example_iterator_queries())
               .s("task", r.example_iterator_queries().selector_context().computation_properties().federated().task_name())
               .raw("queries", List(q)));
    return true;
  }

 private:
  bool TrainingConditionsSatisfied() override {
    bool ok = g->polls++ != g->stop_at;
    g->Log(Ev("conds").b("ok", ok));
    return ok;
  }
};

struct TheFiles : Files {
  absl::StatusOr<std::string> CreateTempFile(const std::string& prefix, const std::string& suffix) override {
    bool bad = g->Fails(), nowhere = g->Fails();
    std::string f = g_dir + (nowhere ? "/none/" : "/") + prefix + std::to_string(g->temps++) + suffix;
    g->Log(Ev("temp").s("f", prefix).s("r", bad ? "Internal" : nowhere && prefix == "init" ? "unwritable" : "OK"));
    if (bad) return absl::InternalError("no file");
    if (nowhere && prefix != "init") f = g_dir + "/" + prefix + std::to_string(g->temps++) + suffix;
    return f;
  }
};

struct Db : opstats::OpStatsDb {
  OpStatsSequence data;
  absl::StatusOr<OpStatsSequence> Read() override {
    bool ok = !g->Fails();
    g->Log(Ev("dbread").b("ok", ok));
    if (!ok) return absl::DataLossError("cannot read");
    return data;
  }
  absl::Status Transform(std::function<void(OpStatsSequence&)> f) override {
    bool ok = !g->Fails();
    if (ok) f(data);
    g->Log(Ev("commit").b("ok", ok));
    return ok ? absl::OkStatus() : absl::InternalError("cannot store");
  }
};
struct DbRef : opstats::OpStatsDb {  // handed to the logger, which owns it
  Db* db;
  explicit DbRef(Db* d) : db(d) {}
  absl::StatusOr<OpStatsSequence> Read() override { return db->Read(); }
  absl::Status Transform(std::function<void(OpStatsSequence&)> f) override { return db->Transform(f); }
};

struct Publisher : StubEventPublisher {
  Ev ev{"pub"};
  std::string text;
  std::map<std::string, long long> num;
  bool model = false;
  void On(const char* name) override {
    ev = Ev("pub");
    ev.s("name", name);
    model = std::string(name) == "SetModelIdentifier";
    if (std::string(name) == "PublishComputationStarted" && g->started == absl::InfiniteFuture()) g->started = absl::Now();
    text.clear();
    num = {{"down", -1}, {"up", -1}, {"ms", -1}, {"examples", -1}, {"bytes", -1}};
  }
  void Text(const std::string& v) override { text = v; }
  void Number(const char* k, long long v) override { num[k] = v; }
  void Done() override {
    if (model) {
      g->model_id = text;
      return;
    }
    for (auto& [k, v] : num) ev.i(k, v);
    ev.b("tells", text.find("model") != std::string::npos);
    NetworkStats all = g->net + g->fsnet;
    ev.i("alldown", all.bytes_downloaded).i("allup", all.bytes_uploaded)
        .i("allms", absl::ToInt64Milliseconds(all.network_duration));
    g->Log(ev.s("text", text).s("id", g->model_id));
  }
};

struct Slices : FederatedSelectManager {
  struct F : FederatedSelectExampleIteratorFactory {
    std::string tmpl;
    absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override {
      g->Log(Ev("slices").s("tmpl", tmpl));
      g->fsnet.bytes_downloaded += 3;
      g->fsnet.network_duration += absl::Milliseconds(2);
      auto i = std::make_unique<Iter>();
      i->q.uri = s.collection_uri();
      i->q.have = 2;
      i->result = false;
      return std::unique_ptr<ExampleIterator>(std::move(i));
    }
    absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s,
                                                                           const SelectorContext&) override {
      return CreateExampleIterator(s);
    }
  };
  std::unique_ptr<engine::ExampleIteratorFactory> CreateExampleIteratorFactoryForUriTemplate(
      absl::string_view t) override {
    auto f = std::make_unique<F>();
    f->tmpl = std::string(t);
    return f;
  }
  NetworkStats GetNetworkStats() override { return g->fsnet; }
};

// ---- the server ------------------------------------------------------------------
std::string OutJson(const Out& o) {
  return Ev("o").s("n", o.name).s("ty", o.type).il("dims", o.dims).il("vals", o.vals).str();
}
std::string TaskJson(const Task& t) {
  std::vector<std::string> outs, qs;
  for (auto& o : t.outs) outs.push_back(OutJson(o));
  for (auto& q : t.queries) {
    std::vector<std::string> os;
    for (size_t i = 0; i < q.outs.size(); i++) {
      auto& o = q.outs[i];
      os.push_back(Ev("o").s("n", o.name).s("ty", o.type).s("want", q.want[i]).b("there", !q.missing.count(o.name))
                       .il("vals", o.vals).str());
    }
    qs.push_back(Ev("q").s("u", q.uri).i("have", q.have).i("size", QueryResult(q).size()).i("make", q.make).i("error", q.error).b("parses", q.parses).raw("outs", List(os)).str());
  }
  return Ev("t").s("n", t.name).s("session", t.session).s("kind", t.kind).s("defect", t.defect)
      .i("fetch", t.fetch).i("minsep", t.minsep).b("in", t.in).b("out", t.out).b("conf", t.conf).i("secagg", t.secagg)
      .raw("outs", List(outs)).raw("queries", List(qs)).s("model", t.model).s("output", t.output).str();
}
std::string SpecJson(const Spec& s) {
  std::vector<std::string> ts, ps;
  for (auto& t : s.tasks) ts.push_back(Ev("t").s("n", t.name).i("mode", t.mode).il("pols", t.pols).str());
  for (auto& p : s.pols)
    ps.push_back(Ev("p").s("kind", p.kind).i("make", p.q.make).i("have", p.q.have).i("error", p.q.error).i("min", p.min)
                     .s("tf", p.tf).sl("pass", p.pass).str());
  return Ev("s").b("has", s.has).raw("tasks", List(ts)).raw("pols", List(ps)).str();
}
PopulationEligibilitySpec SpecProto(const Spec& s) {
  PopulationEligibilitySpec r;
  for (auto& t : s.tasks) {
    auto* i = r.add_task_info();
    i->set_task_name(t.name);
    i->set_task_assignment_mode(static_cast<PopulationEligibilitySpec::TaskInfo::TaskAssignmentMode>(t.mode));
    for (int p : t.pols) i->add_eligibility_policy_indices(p);
  }
  for (auto& p : s.pols) {
    auto* e = r.add_eligibility_policies();
    e->set_name(p.name);
    e->set_min_version(p.kind == "un" ? 99 : 1);
    if (p.kind == "tf") e->mutable_tf_custom_policy();
    else {
      auto* d = e->mutable_data_availability_policy();
      d->mutable_selector()->set_collection_uri(p.q.uri);
      d->mutable_selector()->mutable_criteria()->set_value(p.q.criteria);
      d->set_min_example_count(p.min);
    }
  }
  return r;
}

std::variant<std::string, absl::Cord> Payload(const std::string& s, bool cord) {
  if (!cord) return s;
  absl::Cord c(s.substr(0, s.size() / 2));
  c.Append(s.substr(s.size() / 2));
  return c;
}

struct Server : FederatedProtocol {
  int eet = 0;              // status code; -1 rejected, -2 disabled, -3 task
  bool eet_parses = true, eet_cb = true;
  Spec spec;
  int multi = 0, single = 0;   // status codes; single -1: rejected
  bool cb_first = false;       // an error arrives after the locations of the payloads did
  std::vector<Task> offers;    // of several tasks
  Task offer;
  std::map<std::string, int> report;  // status codes by task
  int single_report = 0;

  void Window() {
    g->windows++;
    g->Spend();
  }
  absl::StatusOr<EligibilityEvalCheckinResult> EligibilityEvalCheckin(
      std::function<void(const EligibilityEvalTask&)> cb) override {
    Window();
    EligibilityEvalTask t;
    t.execution_id = "eet";
    ClientOnlyPlan plan;
    plan.set_tflite_graph("eet");
    plan.mutable_phase()->mutable_federated_compute_eligibility()->set_task_eligibility_info_tensor_name("info");
    plan.mutable_phase()->mutable_federated_compute_eligibility()->set_input_filepath_tensor_name("in");
    auto* tf = plan.mutable_phase()->mutable_tensorflow_spec();
    tf->set_dataset_token_tensor_name("token");
    tf->add_input_tensor_specs()->set_name("in");
    tf->add_output_tensor_specs()->set_name("info");
    t.payloads.plan = eet_parses ? plan.SerializeAsString() : std::string("\xff\xff");
    t.payloads.checkpoint = Payload("eet checkpoint", g->rng->chance(50));
    if (spec.has) t.population_eligibility_spec = SpecProto(spec);
    bool called = eet == -3 || (eet > 0 && cb_first);
    if (called) {
      cb(t);
      Window();
    }
    Ev e("eet");
    e.s("r", eet == -1 ? "rejected" : eet == -2 ? "disabled" : eet == -3 ? "task" : CodeName(Fail(eet, "")));
    e.b("parses", eet_parses).raw("spec", SpecJson(spec)).i("w", g->windows).b("cb", called);
    g->Log(e);
    if (eet == -1) return EligibilityEvalCheckinResult(Rejection{});
    if (eet == -2) {
      EligibilityEvalDisabled d;
      if (spec.has) d.population_eligibility_spec = SpecProto(spec);
      return EligibilityEvalCheckinResult(d);
    }
    if (eet == -3) return EligibilityEvalCheckinResult(t);
    return Fail(eet, "eet");
  }
  void ReportEligibilityEvalError(absl::Status s) override {
    Window();
    g->Log(Ev("eeterr").s("c", CodeName(s)).i("w", g->windows));
  }
  TaskAssignment Assignment(const Task& t) {
    TaskAssignment a;
    a.payloads.plan = Payload(t.plan, t.cord);
    a.payloads.checkpoint = Payload(t.input, t.cord);
    a.federated_select_uri_template = "slices/" + t.name;
    a.aggregation_session_id = t.session;
    a.task_name = t.name;
    if (t.secagg >= 0) a.sec_agg_info = SecAggInfo{100, t.secagg};
    if (t.conf) a.confidential_agg_info = ConfidentialAggInfo{absl::Cord("policy")};
    return a;
  }
  absl::StatusOr<CheckinResult> Checkin(const std::optional<TaskEligibilityInfo>& info,
                                        std::function<void(const TaskAssignment&)> cb) override {
    Window();
    std::vector<std::string> w;
    if (info.has_value())
      for (auto& x : info->task_weights())
        w.push_back(Ev("w").s("n", x.task_name()).i("w", static_cast<int>(x.weight())).str());
    TaskAssignment a = Assignment(offer);
    bool called = single == 0 || (single > 0 && cb_first);
    if (called) {
      cb(a);
      Window();
    }
    g->Log(Ev("checkin").b("has", info.has_value()).raw("info", List(w))
               .s("r", single == -1 ? "rejected" : CodeName(Fail(single, ""))).raw("task", TaskJson(offer))
               .i("w", g->windows).b("cb", called));
    if (single > 0) return Fail(single, "checkin");
    if (single == -1) return CheckinResult(Rejection{});
    return CheckinResult(a);
  }
  absl::StatusOr<MultipleTaskAssignments> PerformMultipleTaskAssignments(
      const std::vector<std::string>& names, const std::function<void(size_t)>& cb) override {
    Window();
    std::vector<std::string> ts;
    // A task that was not asked for is not given.
    offers.erase(std::remove_if(offers.begin(), offers.end(),
                                [&](const Task& t) { return std::find(names.begin(), names.end(), t.name) == names.end(); }),
                 offers.end());
    MultipleTaskAssignments m;
    std::map<std::string, std::string> sorted;
    if (multi == 0)
      for (auto& t : offers) {
        sorted[t.name] = TaskJson(t);
        if (t.fetch) m.task_assignments[t.name] = Fail(t.fetch, "fetch");
        else m.task_assignments[t.name] = Assignment(t);
      }
    for (auto& [n, j] : sorted) ts.push_back(j);
    bool called = (multi == 0 && !offers.empty()) || (multi > 0 && cb_first);
    size_t count = multi == 0 ? offers.size() : 1;
    if (called) {
      cb(count);
      Window();
    }
    g->Log(Ev("multi").sl("names", names).s("r", CodeName(Fail(multi, ""))).raw("tasks", List(ts))
               .i("w", g->windows).b("cb", called).i("count", count));
    if (multi > 0) return Fail(multi, "multi");
    return m;
  }

  static std::vector<std::string> Checkpoint(const std::string& text) {
    // name\ntype\ncount\n then length:value\n ...; anything else is shown as it is.
    std::map<std::string, std::string> parts;
    size_t p = 0;
    auto line = [&](std::string* s) {
      size_t e = text.find('\n', p);
      if (e == std::string::npos) return false;
      *s = text.substr(p, e - p);
      p = e + 1;
      return true;
    };
    std::string name, type, count;
    while (p < text.size()) {
      if (!line(&name) || !line(&type) || !line(&count)) return {"unreadable"};
      std::string vals;
      int n = atoi(count.c_str());
      for (int i = 0; i < n; i++) {
        size_t c = text.find(':', p);
        if (c == std::string::npos) return {"unreadable"};
        int len = atoi(text.substr(p, c - p).c_str());
        vals += (i ? "," : "") + text.substr(c + 1, len);
        p = c + 1 + len + 1;
      }
      if (parts.count(name)) return {"twice"};
      parts[name] = name + "|" + type + "|" + vals;
    }
    std::vector<std::string> r;
    for (auto& [n, s] : parts) r.push_back(s);
    return r;
  }
  absl::Status ReportCompleted(ComputationResults results, absl::Duration,
                               std::optional<std::string> session) override {
    Window();
    std::map<std::string, std::string> tensors;
    std::vector<std::string> ck, fc, tv;
    bool has_ck = false, has_fc = false;
    std::string plain;
    std::vector<std::string> names;
    for (auto& [n, v] : results) {
      if (auto* q = std::get_if<QuantizedTensor>(&v)) {
        std::vector<int64_t> vals(q->values.begin(), q->values.end());
        tensors[n] = Ev("t").s("n", n).i("bits", q->bitwidth).il("dims", q->dimensions).il("vals", vals).str();
      } else if (auto* s = std::get_if<TFCheckpoint>(&v)) {
        has_ck = true;
        plain = n == kTensorflowCheckpointAggregand ? *s : "under " + n;
        ck = plain.rfind("out of ", 0) == 0 ? std::vector<std::string>{} : Checkpoint(plain);
      } else {
        has_fc = true;
        std::string c(std::get<FCCheckpoint>(v));
        if (n != kFederatedComputeCheckpoint) fc = {"under " + n};
        else if (c.rfind("FCv1\n", 0) == 0) fc = Checkpoint(c.substr(5));
        else fc = {"unreadable"};
      }
    }
    for (auto& [n, j] : tensors) tv.push_back(j);
    int r = Result(session);
    g->Log(Ev("report").b("ok", true).b("named", session.has_value()).s("session", session.value_or(""))
               .raw("tensors", List(tv)).b("ck", has_ck).s("plain", plain.rfind("out of ", 0) == 0 ? plain : "")
               .sl("slices", ck).b("fc", has_fc).sl("fcs", fc).s("r", CodeName(Fail(r, ""))).i("w", g->windows));
    return Fail(r, "report");
  }
  absl::Status ReportNotCompleted(engine::PhaseOutcome o, absl::Duration, std::optional<std::string> session) override {
    Window();
    int r = Result(session);
    g->Log(Ev("report").b("ok", false).b("named", session.has_value()).s("session", session.value_or(""))
               .s("outcome", engine::PhaseOutcome_Name(o)).s("r", CodeName(Fail(r, ""))).i("w", g->windows));
    return Fail(r, "report");
  }
  int Result(const std::optional<std::string>& session) {
    if (!session.has_value()) return single_report;
    for (auto& t : offers)
      if (t.session == *session) return report[t.name];
    return 0;
  }
  RetryWindow GetLatestRetryWindow() override {
    RetryWindow w;
    w.set_retry_token("w" + std::to_string(g->windows));
    w.mutable_delay_min()->set_seconds(g->windows);
    w.mutable_delay_max()->set_seconds(g->windows + 100);
    return w;
  }
  NetworkStats GetNetworkStats() override { return g->net; }
};

}  // namespace

// ---- the model -------------------------------------------------------------------
namespace fcp::client::engine {
absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(
    const std::string& model, std::function<bool()> should_abort, const InterruptibleRunner::TimingConfig&, LogManager*,
    std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs, std::vector<std::string> output_names,
    const TfLiteInterpreterOptions&, int32_t) {
  auto input = [&](const std::string& n) { return inputs->count(n) ? inputs->at(n) : std::string(); };
  auto slurp = [](const std::string& f) {
    std::ifstream s(f, std::ios::binary);
    std::stringstream b;
    b << s.rdbuf();
    return b.str();
  };
  auto dataset = [&](const ExampleSelector& s) -> std::unique_ptr<fcp::ExternalDatasetIterator> {
    std::string token = input("token");
    if (token.size() != fcp::kRandomTokenSizeInBytes) return nullptr;
    auto provider =
        fcp::HostObjectRegistry<fcp::ExternalDatasetProvider>::TryLookup(fcp::RandomToken::FromBytes(token));
    if (!provider.has_value()) return nullptr;
    auto d = (*provider)->MakeDataset(s.SerializeAsString());
    if (!d.ok()) return nullptr;
    return (*d)->MakeIterator();
  };
  OutputTensors r;
  r.output_tensor_names = output_names;
  if (model == "eet") {
    // Evaluates the policy it is told about.
    ExampleSelector s;
    s.set_collection_uri("internal:/eligibility_context");
    auto it = dataset(s);
    auto ex = it ? it->GetNext() : absl::StatusOr<std::string>(absl::InternalError("no dataset"));
    tensorflow::Example e;
    std::string policy = "?";
    if (ex.ok() && e.ParseFromString(*ex) && e.features().feature().count("policy_name"))
      policy = e.features().feature().at("policy_name").bytes_list().value(0);
    g->Log(Ev("model").s("m", "eet").s("policy", policy).b("input", slurp(input("in")) == "eet checkpoint"));
    for (auto& p : g->pols) {
      if (p.name != policy) continue;
      if (p.tf == "cancel") return absl::CancelledError("model");
      if (p.tf == "invalid") return absl::InvalidArgumentError("model");
      google::internal::federatedml::v2::TaskEligibilityInfo info;
      for (auto& n : p.pass) {
        auto* w = info.add_task_weights();
        w->set_task_name(n);
        w->set_weight(1);
      }
      r.output_tensors.push_back(
          tensorflow::Tensor(p.tf == "garbage" ? std::string("\xff\xff\xff") : info.SerializeAsString()));
      if (p.tf == "two") r.output_tensors.push_back(r.output_tensors[0]);
      return r;
    }
    return absl::InvalidArgumentError("unknown policy");
  }
  auto ti = g->tasks.find(model);
  if (ti == g->tasks.end()) {
    g->Log(Ev("model").s("m", "?" + model));
    return absl::InvalidArgumentError("unknown model");
  }
  const Task& t = ti->second;
  bool in_ok = t.in ? slurp(input("in")) == t.input : !inputs->count("in");
  for (auto& [n, v] : t.constants) in_ok = in_ok && input(n) == v;
  bool out_ok = t.out ? !input("out").empty() : !inputs->count("out");
  std::vector<std::string> want;
  for (auto& o : t.outs) want.push_back(o.name);
  std::map<std::string, std::string> given(inputs->begin(), inputs->end());
  given.erase("token");
  if (t.local) g->Log(Ev("model").s("m", t.name).raw("inputs", Pairs(given)).b("names", output_names.empty()));
  else g->Log(Ev("model").s("m", t.name).b("input", in_ok).b("output", out_ok).b("names", want == output_names));
  std::vector<std::string> reads;
  std::string fate = t.model;
  std::vector<int64_t> errors;
  for (auto& q : t.queries) {
    if (fate == "abort" && should_abort()) break;
    ExampleSelector s;
    s.set_collection_uri(q.uri);
    if (!q.criteria.empty()) s.mutable_criteria()->set_value(q.criteria);
    auto it = dataset(s);
    absl::Status end = it ? absl::OkStatus() : absl::InternalError("no dataset");
    absl::Mutex mu;
    std::vector<int64_t> vals;
    int64_t bytes = 0;
    bool inorder = true, again = true;
    auto reader = [&]() {
      int64_t last = -1;
      for (int k = 0; it && k < q.read; k++) {
        auto x = it->GetNext();
        absl::MutexLock lock(&mu);
        if (!x.ok()) {
          end = x.status();
          // The end stays the end.
          if (absl::IsOutOfRange(end)) again = again && absl::IsOutOfRange(it->GetNext().status());
          break;
        }
        bytes += x->size();
        int64_t v = vals.size();
        if (q.uri == opstats::kOpStatsCollectionUri) {
          tensorflow::Example e;
          if (!e.ParseFromString(*x)) v = -1;
        } else {
          v = x->rfind(q.uri + "#", 0) == 0 ? atoi(x->c_str() + q.uri.size() + 1) : -1;
        }
        inorder = inorder && v > last;
        last = v;
        vals.push_back(v);
      }
    };
    std::vector<std::thread> others;
    for (int k = 1; k < q.readers; k++) others.emplace_back(reader);
    reader();
    for (auto& o : others) o.join();
    std::sort(vals.begin(), vals.end());
    reads.push_back(Ev("r").s("u", q.uri).i("want", q.read * q.readers).i("n", vals.size()).i("bytes", bytes)
                        .il("vals", vals).s("end", CodeName(end)).b("inorder", inorder && again).str());
    if (!end.ok() && !absl::IsOutOfRange(end)) {
      errors.push_back(static_cast<int>(end.code()));
      // A model may still read other sources.
      if (!t.goes_on) break;
    }
  }
  std::string res = !errors.empty() ? "InvalidArgument" : fate == "ok" ? "OK" : fate == "invalid" ? "InvalidArgument" : "Cancelled";
  g->Log(Ev("ran").s("m", t.name).s("r", res).il("iters", errors).raw("reads", List(reads)));
  if (res == "InvalidArgument") return absl::InvalidArgumentError("model");
  if (res == "Cancelled") return absl::CancelledError("model");
  if (t.out && !t.output.empty()) std::ofstream(input("out"), std::ios::binary) << t.output;
  if (t.out && t.output.empty()) unlink(input("out").c_str());
  static const std::map<std::string, tensorflow::DataType> types = {
      {"int8", tensorflow::DT_INT8},   {"uint8", tensorflow::DT_UINT8},   {"int16", tensorflow::DT_INT16},
      {"uint16", tensorflow::DT_UINT16}, {"int32", tensorflow::DT_INT32}, {"int64", tensorflow::DT_INT64},
      {"float", tensorflow::DT_FLOAT}};
  for (auto& o : t.outs) {
    tensorflow::Tensor x;
    x.type = types.at(o.type);
    x.ints = o.vals;
    r.output_tensors.push_back(x);
  }
  return r;
}
}  // namespace fcp::client::engine

namespace {

// ---- generating runs -------------------------------------------------------------
struct Gen {
  Rng& r;
  std::string mode;
  int bad;  // percent of things that go wrong
  int uris = 0;
  std::vector<std::string> all;

  bool Bad() { return r.chance(bad); }
  int Code() { return r.pick(std::vector<int>{1, 3, 10, 13, 14}); }
  Query Source(bool elig, const std::vector<Query>& own = {}) {
    Query q;
    q.criteria = "select " + std::to_string(uris);
    q.uri = (elig ? "app:/elig" : "app:/c") + std::to_string(uris++);
    // Tasks use the same collections, too.
    if (!all.empty() && r.chance(35)) {
      std::string u = r.pick(all);
      bool mine = false;
      for (auto& o : own) mine = mine || o.uri == u;
      if (!mine) q.uri = u;
    }
    all.push_back(q.uri);
    if (Bad()) q.make = r.pick(std::vector<int>{1, 3, 13});
    q.have = r.in(0, 3);
    if (Bad()) q.error = r.pick(std::vector<int>{1, 3, 13});
    q.read = r.in(0, 4);
    return q;
  }
  void Plan(Task& t) {
    ClientOnlyPlan p;
    if (t.minsep >= 0) p.mutable_client_persisted_data()->set_min_sep_policy_index(t.minsep);
    auto* ph = p.mutable_phase();
    if (t.kind == "eq") {
      if (t.defect != "noio") {
        auto* io = ph->mutable_federated_example_query();
        for (auto& q : t.queries)
          for (auto& o : q.outs) {
            auto& a = (*io->mutable_aggregations())[o.name];
            if (t.defect == "noagg") a.mutable_secure_aggregation();
            else a.mutable_tf_v1_checkpoint_aggregation();
          }
      }
      auto* es = ph->mutable_example_query_spec();
      for (auto& q : t.queries) {
        auto* e = es->add_example_queries();
        e->mutable_example_selector()->set_collection_uri(q.uri);
        e->mutable_example_selector()->mutable_criteria()->set_value(q.criteria);
        t.merged += e->example_selector().criteria().SerializeAsString();
        for (size_t i = 0; i < q.outs.size(); i++) {
          auto& v = (*e->mutable_output_vector_specs())[q.outs[i].name];
          v.set_vector_name("v_" + q.outs[i].name);
          ExampleQuerySpec::OutputVectorSpec::DataType d;
          std::string n = q.want[i];
          for (auto& c : n) c = toupper(c);
          ExampleQuerySpec::OutputVectorSpec::DataType_Parse(n, &d);
          v.set_data_type(d);
        }
      }
    } else {
      p.set_tflite_graph(t.name);
      auto* tf = ph->mutable_tensorflow_spec();
      tf->set_dataset_token_tensor_name("token");
      if (t.in) tf->add_input_tensor_specs()->set_name(t.defect == "inputs" ? "other" : "in");
      if (t.out) tf->add_input_tensor_specs()->set_name("out");
      if (t.defect != "noio") {
        auto* io = ph->mutable_federated_compute();
        if (t.in) io->set_input_filepath_tensor_name("in");
        if (t.out) io->set_output_filepath_tensor_name("out");
        for (auto& o : t.outs) {
          auto& a = (*io->mutable_aggregations())[o.name];
          if (t.defect == "noagg") a.mutable_tf_v1_checkpoint_aggregation();
          else a.mutable_secure_aggregation();
        }
      }
      for (auto& [n, v] : t.constants) {
        auto& c = (*tf->mutable_constant_inputs())[n];
        c.set_dtype(t.defect == "const" ? tensorflow::DT_INT64 : tensorflow::DT_STRING);
        if (t.defect == "const") c.add_int64_val(1);
        else c.add_string_val(v);
      }
      for (auto& o : t.outs) {
        auto* s = tf->add_output_tensor_specs();
        s->set_name(o.name);
        for (auto d : o.dims) s->mutable_shape()->add_dim()->set_size(d);
      }
    }
    t.plan = t.defect == "parse" ? std::string("\xff\xff\xff") : p.SerializeAsString();
  }
  Task Make(const std::string& name, bool multi) {
    Task t;
    t.name = name;
    t.session = "session-" + name;
    t.cord = r.chance(50);
    t.conf = r.chance(25);
    if (r.chance(50)) t.secagg = r.in(0, 9);
    if (r.chance(40)) t.minsep = r.in(0, 5);
    t.input = "checkpoint for " + name + std::string(r.in(0, 40), 'x');
    t.kind = r.chance(50) ? "eq" : "tf";
    if (Bad()) t.defect = r.pick(std::vector<std::string>{"parse", "noio", "noagg", "inputs", "const"});
    if (multi && Bad()) t.fetch = Code();
    int nq = r.in(t.kind == "eq" ? 1 : 0, 3), no = 0;
    for (int i = 0; i < nq; i++) {
      Query q = Source(false, t.queries);
      if (t.kind == "eq") {
        int k = r.in(1, 2);
        for (int j = 0; j < k; j++) {
          Out o;
          o.name = "o" + std::to_string(no++);
          o.type = r.pick(std::vector<std::string>{"int32", "int64", "float", "double", "string", "string", "int32"});
          if (r.chance(15)) o.type = r.pick(std::vector<std::string>{"bool", "bytes"});
          int n = r.in(0, 3);
          for (int v = 0; v < n; v++) o.vals.push_back(r.in(0, o.type == "bool" ? 1 : 50));
          q.outs.push_back(o);
          q.want.push_back(Bad() ? "int64" : o.type);
          if (Bad()) q.missing.insert(o.name);
        }
        if (Bad()) q.parses = false;
      }
      t.queries.push_back(q);
    }
    if (t.kind == "tf") {
      t.in = r.chance(85);
      t.out = r.chance(60);
      int n = t.out ? r.in(0, 2) : r.in(1, 3);
      for (int i = 0; i < n; i++) {
        Out o;
        o.name = "t" + std::to_string(i);
        o.type = r.pick(std::vector<std::string>{"int8", "uint8", "int16", "uint16", "int32", "int64"});
        if (Bad()) o.type = "float";
        int d = r.in(0, 3);
        o.dims = {d};
        if (r.chance(30)) o.dims = {1, d};
        for (int v = 0; v < d; v++) o.vals.push_back(r.in(0, 100));
        t.outs.push_back(o);
      }
      for (auto& q : t.queries)
        if (r.chance(15)) q.readers = r.in(2, 3);
      if (!t.queries.empty() && r.chance(25)) {
        // The history of the device and slices are there for every task.
        t.queries.push_back(Query());
        t.queries.back().uri = r.chance(50) ? opstats::kOpStatsCollectionUri : kFederatedSelectCollectionUri;
        t.queries.back().read = 5;
      }
      if (t.out) t.output = Bad() ? "" : "out of " + name;
      if (bad > 0 && t.queries.size() > 1 && r.chance(20)) {
        // The first source fails, the others come to their end.
        for (auto& q : t.queries) {
          q.make = 0;
          q.read = q.have + 1;
        }
        t.queries[0].error = r.pick(std::vector<int>{1, 3, 13});
        t.goes_on = true;
      } else {
        t.goes_on = r.chance(50);
      }
      int c = t.defect == "const" ? 1 : r.chance(30) ? r.in(1, 2) : 0;
      for (int i = 0; i < c; i++) t.constants["const" + std::to_string(i)] = name + " constant " + std::to_string(r.in(0, 99));
      if (Bad()) t.model = r.pick(std::vector<std::string>{"invalid", "cancel", "abort"});
      if (t.defect == "inputs" && !t.in) t.defect = "";
      if (t.defect == "noagg" && t.outs.empty()) t.defect = "";
    } else {
      t.in = t.out = false;
      if (t.defect == "inputs" || t.defect == "const") t.defect = "";
    }
    Plan(t);
    return t;
  }
};

void Stored(World& w, Db& db) {
  // The record of this run is the last one.
  const OperationalStats& o = db.data.opstats(db.data.opstats_size() - 1);
  auto when = [&w](const std::string& u, const auto& d) -> std::string {
    if (!d.has_first_access_timestamp()) return "none";
    absl::Time t = absl::FromUnixSeconds(d.first_access_timestamp().seconds()) +
                   absl::Nanoseconds(d.first_access_timestamp().nanos());
    if (t < w.started) return "early";
    return w.used.count(u) && t > w.used.at(u) ? "late" : "ok";
  };
  auto phase = [&when](const auto& s, const std::string& name) {
    std::vector<std::string> ev;
    for (auto& e : s.events()) {
      std::string k = OperationalStats::Event::EventKind_Name(e.event_type());
      ev.push_back(k.substr(k.find("KIND_") + 5));
    }
    std::vector<std::string> ds;
    std::map<std::string, std::string> sorted;
    for (auto& [u, d] : s.dataset_stats())
      sorted[u] = Ev("d").s("u", u).i("n", d.num_examples_read()).i("bytes", d.num_bytes_read())
                      .s("first", when(u, d)).str();
    for (auto& [u, d] : sorted) ds.push_back(d);
    return Ev("phase").s("phase", name).s("task", s.task_name()).sl("events", ev).s("text", s.error_message())
        .raw("data", List(ds));
  };
  std::vector<std::string> phases;
  for (auto& p : o.phase_stats())
    phases.push_back(phase(p, OperationalStats::PhaseStats::Phase_Name(p.phase()))
                         .i("down", p.bytes_downloaded()).i("up", p.bytes_uploaded())
                         .i("ms", p.network_duration().seconds() * 1000 + p.network_duration().nanos() / 1000000).str());
  Ev e = phase(o, "");
  w.Log(Ev("stored").s("session", o.session_name()).s("pop", o.population_name()).raw("top", e.str())
          .raw("phases", List(phases)).i("down", o.chunking_layer_bytes_downloaded())
          .i("up", o.chunking_layer_bytes_uploaded())
          .i("ms", o.network_duration().seconds() * 1000 + o.network_duration().nanos() / 1000000)
          .i("min", o.retry_window().delay_min().seconds()).i("max", o.retry_window().delay_max().seconds())
          .b("token", !o.retry_window().retry_token().empty())
          .i("minsep", o.has_min_sep_policy_index() ? o.min_sep_policy_index() : -1)
          .i("alldown", w.net.bytes_downloaded + w.fsnet.bytes_downloaded).i("allup", w.net.bytes_uploaded)
          .i("allms", absl::ToInt64Milliseconds(w.net.network_duration + w.fsnet.network_duration)));
}

int Run(verif::Trace& log, uint64_t seed, const std::string& mode) {
  Rng r(seed);
  World w;
  g = &w;
  w.log = &log;
  w.rng = &r;
  Gen gen{r, mode, mode == "tidy" ? 0 : mode == "multi" ? static_cast<int>(r.pick(std::vector<int>{0, 5}))
                                      : static_cast<int>(r.pick(std::vector<int>{0, 3, 10, 25}))};
  w.fail = gen.bad / 2;
  w.session = "s" + std::to_string(r.in(0, 9));
  w.population = "p" + std::to_string(r.in(0, 9));
  TheFlags& f = w.flags;
  f.lw = r.chance(50);
  f.untie = f.lw ? r.chance(70) : r.chance(50);
  f.cid = r.chance(50);
  f.lwid = r.chance(40);
  f.rec = r.chance(50);
  f.conf = r.chance(60);
  f.tflite = mode == "tidy" || !r.chance(4);
  f.phases = r.chance(60);
  f.tflog = r.chance(50);

  Server server;
  server.eet = -3;
  if (mode == "tidy" ? r.chance(30) : r.chance(35)) server.eet = -2;
  if (gen.Bad()) server.eet = r.chance(40) ? -1 : gen.Code();
  server.cb_first = r.chance(50);
  if (gen.Bad()) server.eet_parses = false;
  Spec& spec = server.spec;
  spec.has = server.eet == -3 ? !gen.Bad() : r.chance(70);
  int nt = spec.has ? (r.chance(5) ? 0 : r.in(1, mode == "multi" ? 6 : 4)) : 0;
  int np = server.eet == -3 && spec.has ? r.in(0, 4) : 0;
  std::vector<std::string> names;
  for (int i = 0; i < nt; i++) names.push_back("t" + std::to_string(r.in(0, 9)) + std::to_string(i));
  for (int i = 0; i < np; i++) {
    Policy p;
    p.kind = r.pick(std::vector<std::string>{"da", "da", "tf", "un"});
    p.name = "policy" + std::to_string(i);
    p.q = gen.Source(true);
    p.min = r.in(0, 3);
    if (gen.Bad()) p.tf = r.pick(std::vector<std::string>{"cancel", "invalid", "garbage", "two"});
    for (auto& n : names)
      if (r.chance(70)) p.pass.push_back(n);
    spec.pols.push_back(p);
  }
  for (int i = 0; i < nt; i++) {
    Spec::T t;
    t.name = names[i];
    t.mode = mode == "multi" ? (r.chance(85) ? 2 : 1) : r.pick(std::vector<int>{0, 1, 2, 2});
    for (int p = 0; p < np; p++)
      if (r.chance(25)) t.pols.push_back(p);
    spec.tasks.push_back(t);
  }
  w.pols = spec.pols;
  for (auto& t : spec.tasks)
    if (t.mode == 2 && (mode != "mix" || r.chance(85))) server.offers.push_back(gen.Make(t.name, true));
  if (gen.Bad()) server.multi = gen.Code();
  if (gen.Bad()) server.offers.clear();
  server.offer = gen.Make("single", false);
  if (gen.Bad()) server.single = r.chance(40) ? -1 : gen.Code();
  for (auto& t : server.offers)
    if (gen.Bad()) server.report[t.name] = gen.Code();
  if (gen.Bad()) server.single_report = gen.Code();
  for (auto& t : server.offers) w.tasks[t.name] = t;
  w.tasks[server.offer.name] = server.offer;
  for (auto& [n, t] : w.tasks)
    for (auto& q : t.queries) w.sources[q.uri + " " + q.criteria] = &q;
  for (auto& p : w.pols) w.sources[p.q.uri + " " + p.q.criteria] = &p.q;
  if (gen.Bad()) w.stop_at = r.in(0, 4);

  // What earlier runs left.
  Db db;
  std::vector<std::string> hist;
  db.data.mutable_earliest_trustworthy_time()->set_seconds(kBase);
  int at = 0;
  for (int i = r.in(0, 5); i > 0; i--) {
    auto* e = db.data.add_opstats();
    std::string task = names.empty() || r.chance(30) ? "single" : r.pick(names);
    e->set_task_name(task);
    e->set_population_name(w.population);
    bool started = r.chance(75), aborted = r.chance(20);
    at += r.in(1, 20);
    auto add = [&](OperationalStats::Event::EventKind k) {
      auto* v = e->add_events();
      v->set_event_type(k);
      v->mutable_timestamp()->set_seconds(kBase + at);
    };
    if (started) add(OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED);
    int sat = at;
    at += r.in(1, 20);
    if (started && aborted) add(OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED);
    if (started && !aborted) add(OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_FINISHED);
    std::vector<std::string> acc;
    for (int k = 0, n = r.in(0, 2); k < n; k++) {
      std::string u = "app:/c" + std::to_string(k);
      auto& d = (*e->mutable_dataset_stats())[u];
      d.mutable_first_access_timestamp()->set_seconds(kBase + sat - 1);
      acc.push_back(Ev("a").s("u", u).i("at", sat - 1).str());
    }
    hist.push_back(Ev("h").s("task", task).b("started", started).b("aborted", aborted).i("at", sat).raw("acc", List(acc)).str());
  }

  log(Ev("reset"));
  log(Ev("start").s("session", w.session).s("pop", w.population).b("lw", f.lw).b("untie", f.untie).b("cid", f.cid)
          .b("lwid", f.lwid).b("rec", f.rec).b("conf", f.conf).b("tflite", f.tflite).b("phases", f.phases)
          .b("tflog", f.tflog).raw("hist", List(hist)));
  Env env;
  TheFiles files;
  TheLog lm;
  Publisher pub;
  Slices slices;
  fcp::client::InterruptibleRunner::TimingConfig timing = {absl::ZeroDuration(), absl::Seconds(1), absl::Seconds(1)};
  {
    opstats::OpStatsLoggerImpl ol(std::make_unique<DbRef>(&db), &lm, &f, w.session, w.population);
    PhaseLoggerImpl pl(&pub, &ol, &lm, &f);
    bool stop = r.chance(2);
    if (stop) pl.LogFatalInitializationError(absl::InternalError("init"));
    else if (r.chance(10)) pl.LogNonfatalInitializationError(absl::InternalError("init"));
    if (stop) {
      log(Ev("result").s("r", "stopped"));
    } else {
      auto res = RunFederatedComputation(&env, pl, &pub, &files, &lm, &ol, &f, &server, &slices, timing, absl::Now(),
                                         w.session, w.population, *fcp::Clock::RealClock());
      if (!res.ok()) {
        log(Ev("result").s("r", CodeName(res.status())));
      } else {
        std::vector<std::string> names(res->contributed_task_names().begin(), res->contributed_task_names().end());
        log(Ev("result").s("r", "OK").s("contrib", FLRunnerResult::ContributionResult_Name(res->contribution_result()))
                .sl("names", names).s("token", res->retry_info().retry_token())
                .i("delay", res->retry_info().minimum_delay().seconds()));
      }
    }
    w.fail = 0;
  }
  Stored(w, db);
  // Files of this run.
  if (DIR* d = opendir(g_dir.c_str())) {
    while (dirent* x = readdir(d)) {
      std::string n = x->d_name;
      if (n.rfind("init", 0) == 0 || n.rfind("output", 0) == 0) unlink((g_dir + "/" + n).c_str());
    }
    closedir(d);
  }
  return 0;
}

// A computation without a server.
void RunLocal(verif::Trace& log, uint64_t seed) {
  Rng r(seed);
  World w;
  g = &w;
  w.log = &log;
  w.rng = &r;
  Gen gen{r, "local", r.chance(50) ? 0 : 12};
  w.fail = gen.bad;
  w.session = "s" + std::to_string(r.in(0, 9));
  TheFlags& f = w.flags;
  f.tflite = !gen.Bad();
  f.phases = r.chance(50);
  f.tflog = r.chance(50);

  Task t;
  t.name = "local";
  t.local = true;
  t.in = t.out = false;
  for (int i = r.in(0, 3); i > 0; i--) {
    t.queries.push_back(gen.Source(false, t.queries));
    if (r.chance(15)) t.queries.back().readers = r.in(2, 3);
  }
  if (r.chance(20)) {
    t.queries.push_back(Query());
    t.queries.back().uri = opstats::kOpStatsCollectionUri;
    t.queries.back().read = 5;
  }
  t.goes_on = r.chance(50);
  if (gen.Bad()) t.model = r.pick(std::vector<std::string>{"invalid", "cancel", "abort"});
  if (r.chance(30)) t.constants["const"] = "constant " + std::to_string(r.in(0, 99));

  // Input: a directory, or several resources.
  bool many = r.chance(60);
  std::string in = many && !gen.Bad() ? "" : "/in/" + std::to_string(r.in(0, 99));
  std::string out = "/out/" + std::to_string(r.in(0, 99));
  std::map<std::string, std::string> names, given;
  std::set<std::string> specs = {"out_dir"};
  if (many) {
    for (int i = 0, n = r.in(0, 3); i < n; i++) {
      std::string k = "r" + std::to_string(i);
      names[k] = "tensor" + std::to_string(r.in(0, 9)) + std::to_string(i);
      specs.insert(names[k]);
      if (!gen.Bad()) given[k] = "/file" + std::to_string(r.in(0, 99));
    }
    if (r.chance(30)) given["extra"] = "/more";
  } else {
    specs.insert("in_dir");
    if (r.chance(20)) given["extra"] = "/more";
  }
  if (gen.Bad()) specs.insert("further");
  std::string plan = gen.Bad() ? r.pick(std::vector<std::string>{"missing", "unreadable", "nospec", "norouter"}) : "ok";
  ClientOnlyPlan p;
  p.set_tflite_graph(t.name);
  if (plan != "nospec") {
    auto* tf = p.mutable_phase()->mutable_tensorflow_spec();
    tf->set_dataset_token_tensor_name("token");
    for (auto& n : specs) tf->add_input_tensor_specs()->set_name(n);
    for (auto& [n, v] : t.constants) {
      auto& c = (*tf->mutable_constant_inputs())[n];
      c.set_dtype(tensorflow::DT_STRING);
      c.add_string_val(v);
    }
  } else {
    p.mutable_phase()->mutable_example_query_spec();
  }
  if (plan != "norouter") {
    auto* io = p.mutable_phase()->mutable_local_compute();
    io->set_output_dir_tensor_name("out_dir");
    if (many) {
      io->mutable_multiple_input_resources();
      for (auto& [k, n] : names)
        (*io->mutable_multiple_input_resources()->mutable_input_resource_tensor_name_map())[k] = n;
    } else {
      io->set_input_dir_tensor_name("in_dir");
    }
  }
  std::string file = g_dir + "/plan";
  if (plan != "missing")
    std::ofstream(file, std::ios::binary) << (plan == "unreadable" ? std::string("\xff\xff\xff") : p.SerializeAsString());
  w.tasks[t.name] = t;
  for (auto& q : w.tasks[t.name].queries) w.sources[q.uri + " " + q.criteria] = &q;
  if (gen.Bad()) w.stop_at = r.in(0, 1);

  Db db;
  log(Ev("reset"));
  log(Ev("start").s("session", w.session).s("plan", plan).b("many", many).s("in", in).s("out", out)
          .raw("names", Pairs(names)).raw("res", Pairs(given)).raw("consts", Pairs(t.constants))
          .sl("specs", std::vector<std::string>(specs.begin(), specs.end())).b("tflite", f.tflite)
          .b("phases", f.phases).b("tflog", f.tflog).raw("task", TaskJson(t)));
  Env env;
  TheLog lm;
  Publisher pub;
  absl::flat_hash_map<std::string, std::string> res(given.begin(), given.end());
  env.nowhere = r.chance(50);
  if (env.nowhere) {
    log(Ev("result").s("r", CodeName(RunLocalComputation(&env, &pub, &lm, &f, w.session, file, in, out, res))));
  } else {
    opstats::OpStatsLoggerImpl ol(std::make_unique<DbRef>(&db), &lm, &f, w.session, "");
    PhaseLoggerImpl pl(&pub, &ol, &lm, &f);
    SelectorContext c;
    c.mutable_computation_properties()->set_session_name(w.session);
    auto* l = c.mutable_computation_properties()->mutable_local_compute();
    l->set_input_dir(in);
    l->set_output_dir(out);
    l->mutable_input_resource_map()->insert(given.begin(), given.end());
    auto s = RunLocalComputation(pl, &env, &lm, &ol, &f, file, in, out, res, c);
    log(Ev("result").s("r", CodeName(s)));
    w.fail = 0;
  }
  if (!env.nowhere) Stored(w, db);
  if (plan != "missing") unlink(file.c_str());
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 6) return 3;
  verif::Trace log(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int runs = atoi(argv[3]);
  mkdir(argv[5], 0700);
  g_dir = std::string(argv[5]) + "/run" + std::to_string(getpid());
  if (mkdir(g_dir.c_str(), 0700) != 0) return 3;
  for (int i = 0; i < runs; i++) {
    if (std::string(argv[4]) == "local") RunLocal(log, seed * 1000003 + i);
    else Run(log, seed * 1000003 + i, argv[4]);
  }
  rmdir(g_dir.c_str());
  return 0;
}
