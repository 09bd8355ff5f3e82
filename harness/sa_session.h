// A secure aggregation server with several clients in this process; client 0 is elsewhere.
#ifndef VERIF_HARNESS_SA_SESSION_H_
#define VERIF_HARNESS_SA_SESSION_H_
#include <unistd.h>

#include <cstdio>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"
using namespace fcp;
using namespace fcp::secagg;
using C2S = ClientToServerWrapperMessage;
using S2C = ServerToClientWrapperMessage;

struct Inline : Scheduler {
  std::deque<std::function<void()>> q;
  void Schedule(std::function<void()> t) override { q.push_back(t); }
  void WaitUntilIdle() override {
    while (!q.empty()) {
      auto t = q.front();
      q.pop_front();
      t();
    }
  }
};
struct Exps : ExperimentsInterface {
  std::set<std::string> on;
  explicit Exps(std::set<std::string> s) : on(s) {}
  bool IsEnabled(absl::string_view n) override { return on.count(std::string(n)); }
};
struct Lst : StateTransitionListenerInterface {
  void Transition(ClientState) override {}
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};
struct Session : SendToClientsInterface {
  struct Snd : SendToServerInterface {
    std::deque<C2S>* out;
    explicit Snd(std::deque<C2S>* o) : out(o) {}
    void Send(C2S* m) override { out->emplace_back(); out->back().Swap(m); }
  };
  int n;
  uint64_t mod;
  int len;
  Inline par, seq;
  std::unique_ptr<SecAggServer> server;
  std::vector<std::unique_ptr<SecAggClient>> c;
  std::vector<std::deque<C2S>> up;
  std::vector<std::deque<S2C>> down;
  std::vector<std::vector<uint64_t>> in;
  void Send(uint32_t id, const S2C& m) override { down[id].push_back(m); }

  Session(int n, int min, uint64_t mod = 1000, int len = 3, std::set<std::string> exps = {"FULLGRAPH_SECAGG"})
      : n(n), mod(mod), len(len), up(n), down(n), in(n) {
    std::vector<InputVectorSpecification> spec;
    spec.emplace_back("v", len, mod);
    SecureAggregationRequirements tm;
    tm.set_adversary_class(AdversaryClass::NONE);
    tm.set_adversarial_client_rate(0);
    tm.set_estimated_dropout_rate(0.95);
    auto s = SecAggServer::Create(min, n, spec, this, nullptr, std::make_unique<SecAggScheduler>(&par, &seq),
                                  std::make_unique<Exps>(exps), tm);
    if (!s.ok()) { _exit(3); }
    server = *std::move(s);
    for (int i = 0; i < n; ++i) {
      c.push_back(std::make_unique<SecAggClient>(
          server->NumberOfNeighbors(), server->MinimumSurvivingNeighborsForReconstruction(), spec,
          std::make_unique<CryptoRandPrng>(), std::make_unique<Snd>(&up[i]), std::make_unique<Lst>(),
          std::make_unique<AesCtrPrngFactory>()));
      for (int k = 0; k < len; ++k) in[i].push_back((7919ull * (i + 1) * (k + 3) + (mod - 1) / (i + 1)) % mod);
    }
  }
  void Work() {
    for (int i = 0; i < 8; ++i) { par.WaitUntilIdle(); seq.WaitUntilIdle(); }
  }
  void Start(int i) { (void)c[i]->Start(); }
  void Input(int i) {
    auto m = std::make_unique<SecAggVectorMap>();
    m->emplace("v", SecAggVector(in[i], mod));
    (void)c[i]->SetInput(std::move(m));
  }
  void Up(int i) {
    while (!up[i].empty()) {
      auto m = std::make_unique<C2S>(up[i].front());
      up[i].pop_front();
      (void)server->ReceiveMessage(i, std::move(m));
    }
    Work();
  }
  void Down(int i) {
    while (!down[i].empty()) {
      S2C m = down[i].front();
      down[i].pop_front();
      (void)c[i]->ReceiveMessage(m);
    }
  }
  void UpAll(std::set<int> except = {}) { for (int i = 0; i < n; ++i) if (!except.count(i)) Up(i); }
  void DownAll(std::set<int> except = {}) { for (int i = 0; i < n; ++i) if (!except.count(i)) Down(i); }
  bool Next() {
    Work();
    auto r = server->ReadyForNextRound();
    if (!r.ok() || !*r) return false;
    bool ok = server->ProceedToNextRound().ok();
    Work();
    return ok;
  }
  // -1: no result; 0: wrong; 1: the sum of the given clients' inputs.
  int Check(std::set<int> who) {
    auto r = server->Result();
    if (!r.ok()) return -1;
    auto m = *std::move(r);
    auto v = m->at("v").GetAsUint64Vector();
    for (int k = 0; k < len; ++k) {
      uint64_t s = 0;
      for (int i : who) s = (s + in[i][k]) % mod;
      if (k >= (int)v.size() || v[k] != s) return 0;
    }
    return (int)v.size() == len;
  }
};
#endif
