// Drives the eligibility decider with generated populations and histories.
// usage: d_elig <trace> <seed> <runs> <mode>
#include <regex>
#include <set>

#include "fcp/base/simulated_clock.h"
#include "fcp/client/eligibility_decider.h"
#include "fcp/client/example_query_result.pb.h"
#include "harness.h"
#include "stub/PhaseLogger.h"
#include "tensorflow/core/example/example.pb.h"

using namespace fcp::client;
using google::internal::federated::plan::EligibilityPolicyEvalSpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using verif::Ev;
using verif::Rng;

// engine/common.cc needs TensorFlow; only this constructor is used.
namespace fcp::client::engine {
PlanResult::PlanResult(PlanOutcome o, absl::Status s) : outcome(o), original_status(std::move(s)) {}
}  // namespace fcp::client::engine

namespace {

constexpr int64_t kBase = 1700000000;
struct Log : LogManager {
  void LogDiag(ProdDiagCode) override {}
  void LogDiag(DebugDiagCode) override {}
  void LogToLongHistogram(HistogramCounters, int, int, engine::DataSourceType, int64_t) override {}
  void SetModelIdentifier(const std::string&) override {}
};
struct TheFlags : Flags {
  bool query = false, trust = false, id = false;
  int64_t condition_polling_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; }
  bool log_tensorflow_error_messages() const override { return false; }
  bool enable_lightweight_computation_id() const override { return id; }
  bool check_trustworthiness_for_min_sep_policy() const override { return trust; }
  bool use_example_query_result_for_data_avail() const override { return query; }
};

google::protobuf::Timestamp Stamp(int64_t ms) {
  google::protobuf::Timestamp t;
  t.set_seconds(kBase + ms / 1000);
  t.set_nanos(ms % 1000 * 1000000);
  return t;
}
google::protobuf::Duration Dur(int64_t ms) {
  google::protobuf::Duration d;
  d.set_seconds(ms / 1000);
  d.set_nanos(ms % 1000 * 1000000);
  return d;
}

struct Source {
  bool created;
  int avail, failat, err;
  bool query, parses;
  int count;
};
struct Iter : ExampleIterator {
  Source s;
  bool as_query;
  int n = 0;
  absl::StatusOr<std::string> Next() override {
    if (as_query) {
      if (n++ > 0) return absl::OutOfRangeError("end");
      if (!s.parses) return std::string("\xff\xff\xff");
      ExampleQueryResult r;
      r.mutable_stats()->set_example_count_for_logs(s.count);
      return r.SerializeAsString();
    }
    if (n == s.failat) return absl::Status(static_cast<absl::StatusCode>(s.err), "no");
    if (n >= s.avail) return absl::OutOfRangeError("end");
    return std::string("example") + std::to_string(n++);
  }
  void Close() override {}
};
// Serves the collections whose names it knows; claims others are not its own.
struct Factory : engine::ExampleIteratorFactory {
  std::map<std::string, Source> sources;
  bool CanHandle(const ExampleSelector& s) override { return sources.count(s.collection_uri()) > 0; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s) override {
    return CreateExampleIterator(s, SelectorContext());
  }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector& s,
                                                                         const SelectorContext& c) override {
    const Source& src = sources.at(s.collection_uri());
    if (!src.created) return absl::InternalError("cannot create");
    auto i = std::make_unique<Iter>();
    i->s = src;
    i->as_query = c.computation_properties().example_iterator_output_format() ==
                  QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT;
    return std::unique_ptr<ExampleIterator>(std::move(i));
  }
  bool ShouldCollectStats() override { return true; }
};

struct Tf {
  int outcome;  // 0: runs, 1: plan fails, 2: output does not parse
  std::vector<std::pair<std::string, float>> weights;
};
// Evaluates custom policies as planned, from the context it is given.
struct Runner : EetPlanRunner {
  std::map<std::string, std::pair<int, Tf>> plan;  // by policy name
  std::string asks;
  Tf* current = nullptr;
  engine::PlanResult RunPlan(std::vector<engine::ExampleIteratorFactory*> fs) override {
    ExampleSelector s;
    s.set_collection_uri("internal:/eligibility_context");
    for (auto* f : fs) {
      if (!f->CanHandle(s)) continue;
      auto it = f->CreateExampleIterator(s, f->GetSelectorContext());
      auto ex = (*it)->Next();
      tensorflow::Example e;
      if (!ex.ok() || !e.ParseFromString(*ex)) break;
      if (!e.features().feature().contains("policy_name")) break;
      std::string name = e.features().feature().at("policy_name").bytes_list().value(0);
      std::set<std::string> tasks;
      for (auto& t : e.features().feature().at("task_names").bytes_list().value()) tasks.insert(t);
      auto p = plan.find(name);
      if (p == plan.end()) break;
      asks += (asks.empty() ? "" : ",") + Ev("ask").i("p", p->second.first).sl("tasks", tasks).str();
      current = &p->second.second;
      if (current->outcome == 1) return engine::PlanResult(engine::PlanOutcome::kTensorflowError, absl::InternalError("tf"));
      return engine::PlanResult(engine::PlanOutcome::kSuccess, absl::OkStatus());
    }
    asks += (asks.empty() ? "" : ",") + Ev("ask").i("p", 0).sl("tasks", std::vector<std::string>{"?"}).str();
    return engine::PlanResult(engine::PlanOutcome::kTensorflowError, absl::InternalError("no context"));
  }
  absl::StatusOr<google::internal::federatedml::v2::TaskEligibilityInfo> ParseOutput(
      const std::vector<tensorflow::Tensor>&) override {
    if (current->outcome == 2) return absl::InvalidArgumentError("parse");
    google::internal::federatedml::v2::TaskEligibilityInfo r;
    for (auto& [t, w] : current->weights) {
      auto* x = r.add_task_weights();
      x->set_task_name(t);
      x->set_weight(w);
    }
    return r;
  }
};

const std::vector<std::string> kNames = {"pop/a", "pop/a2", "pop/b", "pop/c", "other/a", "pop/d"};
const std::vector<std::string> kPatterns = {"pop/a", "pop/a.*", "pop/[ab]", ".*", "a", "other/.*|pop/b", "(", "pop/a2?", "nothing"};

void Run(verif::Trace& trace, Rng& g) {
  using opstats::OperationalStats;
  using opstats::OpStatsSequence;
  // Times sit on a coarse grid, so that limits are met exactly, sometimes off by one millisecond.
  auto when = [&](int lo, int hi) { return g.in(lo, hi) * 1000 + (g.chance(10) ? g.in(-1, 1) : 0); };
  int64_t now = 100000 + when(0, 10);
  int64_t ett = std::max<int64_t>(0, g.chance(50) ? now - when(0, 12) : when(0, 99));
  if (g.chance(8)) ett = now + std::abs(when(0, 3));  // the clock has been set back

  // History.
  OpStatsSequence seq;
  *seq.mutable_earliest_trustworthy_time() = Stamp(ett);
  std::string hist;
  int64_t t = now - 14000 + g.in(0, 3) * 1000;
  for (int n = g.in(0, 6); n > 0 && t <= now; --n) {
    OperationalStats* s = seq.add_opstats();
    s->set_population_name("pop");
    bool phases = g.chance(50), index = g.chance(60);
    int64_t idx = g.in(0, 8);
    if (index) s->set_min_sep_policy_index(idx);
    auto event = [&](OperationalStats::PhaseStats* p, OperationalStats::Event::EventKind k, int64_t at) {
      auto* e = p ? p->add_events() : s->add_events();
      e->set_event_type(k);
      *e->mutable_timestamp() = Stamp(at);
    };
    auto phase = [&](OperationalStats::PhaseStats::Phase k) {
      auto* p = s->add_phase_stats();
      p->set_phase(k);
      return p;
    };
    int tasks = phases ? g.in(0, 3) : g.in(0, 1);
    if (phases) event(phase(OperationalStats::PhaseStats::ELIGIBILITY_EVAL_CHECKIN), OperationalStats::Event::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED, t);
    else event(nullptr, OperationalStats::Event::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED, t);
    if (phases && tasks && g.chance(70)) event(phase(OperationalStats::PhaseStats::CHECKIN), OperationalStats::Event::EVENT_KIND_CHECKIN_ACCEPTED, t);
    for (int k = 0; k < tasks; ++k) {
      std::string name = kNames[g.in(0, g.chance(60) ? 2 : 5)];
      OperationalStats::PhaseStats* p = nullptr;
      if (phases) {
        p = phase(OperationalStats::PhaseStats::COMPUTATION);
        p->set_task_name(name);
      } else {
        s->set_task_name(name);
      }
      event(p, OperationalStats::Event::EVENT_KIND_COMPUTATION_STARTED, t);
      t += g.chance(50) ? 1000 * g.in(0, 2) : 0;
      bool up = g.chance(80), aborted = up && g.chance(25), finished = up && !aborted && g.chance(70);
      if (up) {
        if (phases) {
          p = phase(OperationalStats::PhaseStats::UPLOAD);
          p->set_task_name(name);
        }
        event(p, OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED, t);
        int64_t end = t + 1000 * g.in(0, 2);
        if (aborted) event(p, OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED, end);
        if (finished) event(p, OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_FINISHED, end);
      } else if (g.chance(50)) {
        if (phases) {
          p = phase(OperationalStats::PhaseStats::UPLOAD);
          p->set_task_name(name);
        }
        event(p, OperationalStats::Event::EVENT_KIND_FAILURE_UPLOAD_STARTED, t);
      }
      hist += (hist.empty() ? "" : ",") +
              Ev("h").s("task", name).i("t", t).b("ok", up && !aborted).i("idx", index ? idx : -1).str();
    }
    t += g.in(0, 5) * 1000;
    if (g.chance(10)) t += 1;
  }

  // Population.
  TheFlags flags;
  flags.query = g.chance(50);
  flags.trust = g.chance(50);
  flags.id = g.chance(50);
  PopulationEligibilitySpec spec;
  Factory f1, f2;
  Runner runner;
  std::string ps;
  int np = g.in(0, 4);
  for (int i = 1; i <= np; ++i) {
    auto* p = spec.add_eligibility_policies();
    std::string name = g.chance(15) ? "p1" : "p" + std::to_string(i);
    p->set_min_version(g.chance(80) ? g.in(0, 1) : g.in(0, 3));
    int k = g.in(0, 99);
    Ev e("p");
    e.i("v", p->min_version());
    if (k < 30) {
      auto* w = p->mutable_swor_policy();
      int64_t period = when(0, 9);
      if (period < 0) period = 0;
      *w->mutable_min_period() = Dur(period);
      std::string group = "none";
      std::vector<std::string> matched;
      if (g.chance(50)) {
        std::string pat = kPatterns[g.in(0, kPatterns.size() - 1)];
        w->set_group_regex(pat);
        group = pat == "(" ? "bad" : "set";
        if (group == "set")
          for (auto& n : kNames)
            if (std::regex_match(n, std::regex(pat))) matched.push_back(n);
      }
      e.s("k", "swor").i("period", period).s("group", group).sl("matched", matched);
    } else if (k < 55) {
      auto* m = p->mutable_min_sep_policy();
      m->set_current_index(g.in(0, 10));
      m->set_minimum_separation(g.in(0, 6));
      int64_t period = g.chance(50) ? 0 : std::max<int64_t>(0, when(1, 9));
      *m->mutable_min_trustworthiness_period() = Dur(period);
      e.s("k", "sep").i("cur", m->current_index()).i("sep", m->minimum_separation()).i("period", period);
    } else if (k < 75) {
      auto* d = p->mutable_data_availability_policy();
      std::string uri = "app:/" + std::to_string(i);
      d->mutable_selector()->set_collection_uri(uri);
      d->set_min_example_count(g.in(0, 4));
      d->set_use_example_query_result_format(g.chance(50));
      Source s;
      bool handled = g.chance(90);
      s.created = g.chance(90);
      s.avail = g.in(0, 5);
      s.failat = g.chance(75) ? 1000 : g.in(0, 4);
      int codes[] = {1, 2, 3, 13};
      s.err = codes[g.in(0, 3)];
      s.query = d->use_example_query_result_format();
      s.parses = g.chance(85);
      s.count = g.in(0, 5);
      if (handled) (g.chance(50) ? f1 : f2).sources[uri] = s;
      e.s("k", "data").i("min", d->min_example_count()).b("handled", handled).b("created", s.created).i("avail", s.avail);
      e.i("failat", s.failat).b("query", s.query).b("parses", s.parses).i("count", s.count);
    } else if (k < 92) {
      p->mutable_tf_custom_policy()->set_arguments("x");
      name = "tf" + std::to_string(i);  // the context tells policies apart by name
      Tf tf;
      tf.outcome = g.chance(75) ? 0 : g.in(1, 2);
      std::vector<std::string> allowed;
      for (auto& n : kNames)
        if (g.chance(70)) {
          float w = g.chance(70) ? (g.chance(50) ? 0.5f : g.chance(50) ? 0.001f : 3) : g.chance(50) ? 0 : -1;
          tf.weights.push_back({n, w});
          if (w > 0) allowed.push_back(n);
        }
      runner.plan[name] = {i, tf};
      e.s("k", "tf").b("ran", tf.outcome == 0).sl("allowed", allowed);
    } else {
      e.s("k", "unknown");
    }
    p->set_name(name);
    ps += (ps.empty() ? "" : ",") + e.str();
  }
  // The context that policies ask for is not the application's.
  if (g.chance(20)) {
    Source s;
    s.created = true;
    s.avail = 1;
    s.failat = 1000;
    f1.sources["internal:/eligibility_context"] = s;
  }
  std::vector<std::string> names = kNames;
  std::string tasks;
  for (int n = g.in(0, 5); n > 0; --n) {
    size_t at = g.in(0, names.size() - 1);
    auto* ti = spec.add_task_info();
    ti->set_task_name(names[at]);
    names.erase(names.begin() + at);
    for (int i = 0; i < np; ++i)
      if (g.chance(45)) ti->add_eligibility_policy_indices(i);
    if (ti->eligibility_policy_indices_size() > 0 && g.chance(10))
      ti->add_eligibility_policy_indices(ti->eligibility_policy_indices(0));
    std::vector<int> uses;
    for (int i : ti->eligibility_policy_indices()) uses.push_back(i + 1);
    tasks += (tasks.empty() ? "" : ",") + Ev("t").s("name", ti->task_name()).il("uses", uses).str();
  }

  Log log;
  StubPhaseLogger phase_logger;
  fcp::SimulatedClock clock;
  clock.SetTime(absl::FromUnixMillis(kBase * 1000 + now));
  auto r = ComputeEligibility(spec, log, phase_logger, seq, clock, {&f1, &f2}, runner, &flags);
  std::string out;
  if (r.ok())
    for (auto& w : r->task_weights())
      out += (out.empty() ? "" : ",") +
             Ev("w").s("name", w.task_name()).i("w", w.weight() == 1.0f ? 1 : w.weight() == 0 ? 0 : 2).str();
  trace(Ev("reset"));
  trace(Ev("decide")
            .i("now", now)
            .i("ett", ett)
            .raw("f", Ev("f").b("query", flags.query).b("trust", flags.trust).str())
            .raw("hist", "[" + hist + "]")
            .raw("ps", "[" + ps + "]")
            .raw("tasks", "[" + tasks + "]")
            .s("ret", verif::CodeName(r.status().code()))
            .raw("out", "[" + out + "]")
            .raw("asks", "[" + runner.asks + "]"));
}

}  // namespace

int main(int argc, char** argv) {
  if (argc != 5) return 3;
  verif::Trace trace(argv[1]);
  Rng g(strtoull(argv[2], nullptr, 10));
  for (int i = atoi(argv[3]); i > 0; --i) Run(trace, g);
  return 0;
}
