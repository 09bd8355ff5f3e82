// Runs real secure aggregation servers and clients under random schedules and
// faults and records every call with its arguments, results and effects.
//   d_secagg session|threads|client|badshare SEED RUNS TRACE
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <map>
#include <set>
#include <thread>

#include "absl/strings/str_cat.h"
#include "fcp/base/clock.h"
#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "harness.h"

using namespace fcp;
using namespace fcp::secagg;
using verif::Ev;
using verif::Rng;
using C2S = ClientToServerWrapperMessage;
using S2C = ServerToClientWrapperMessage;

namespace {

verif::Trace* T;

std::string Bs(const std::vector<bool>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::string(v[i] ? "true" : "false");
  return r + "]";
}
std::string Is(const std::vector<int>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
  return r + "]";
}
std::string Ss(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + Ev::Quote(v[i]);
  return r + "]";
}
std::string Join(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
  return r + "]";
}
std::string Limbs(uint64_t v) {
  return absl::StrCat("[", v & 0xFFFFFF, ",", (v >> 24) & 0xFFFFFF, ",", v >> 48, "]");
}
std::string Ret(const Status& s) { return verif::CodeName(s.code()); }
std::string Ret(const StatusOr<bool>& s) {
  return s.ok() ? (*s ? "T" : "F") : Ret(s.status());
}

struct VecSpec {
  std::string name;
  int len;
  uint64_t mod;
};

std::vector<InputVectorSpecification> ToSpecs(const std::vector<VecSpec>& v) {
  std::vector<InputVectorSpecification> r;
  for (auto& s : v) r.emplace_back(s.name, s.len, s.mod);
  return r;
}

std::vector<VecSpec> RandomSpecs(Rng& g) {
  static const uint64_t mods[] = {2, 3, 7, 16, 17, 1000, 1 << 20, (1u << 31) - 1, 1ull << 32,
                                  (1ull << 33) + 9, (1ull << 40) + 15, (1ull << 61) - 1, 1ull << 62};
  std::vector<VecSpec> r;
  int k = g.in(1, 3);
  for (int i = 0; i < k; ++i)
    r.push_back({absl::StrCat("v", i), static_cast<int>(g.chance(4) ? g.in(40, 90) : g.in(1, 5)),
                 mods[g.in(0, 12)]});
  return r;
}

using Values = std::map<std::string, std::vector<uint64_t>>;

Values RandomValues(Rng& g, const std::vector<VecSpec>& specs) {
  Values r;
  for (auto& s : specs)
    for (int i = 0; i < s.len; ++i)
      r[s.name].push_back(g.chance(15) ? s.mod - 1 : g.chance(10) ? 0 : g.u64() % s.mod);
  return r;
}

std::string ValuesJson(const Values& v) {
  std::vector<std::string> outer;
  for (auto& [n, x] : v) {
    std::vector<std::string> in;
    for (auto y : x) in.push_back(Limbs(y));
    outer.push_back(Join(in));
  }
  return Join(outer);
}

std::unique_ptr<SecAggVectorMap> ToMap(const Values& v, const std::vector<VecSpec>& specs) {
  auto m = std::make_unique<SecAggVectorMap>();
  for (auto& s : specs) {
    auto it = v.find(s.name);
    if (it != v.end()) m->emplace(s.name, SecAggVector(it->second, s.mod));
  }
  return m;
}

// An input that does not fit the specification.
std::unique_ptr<SecAggVectorMap> BadInput(Rng& g, const std::vector<VecSpec>& specs) {
  Values v = RandomValues(g, specs);
  auto m = ToMap(v, specs);
  const VecSpec& s = specs[g.in(0, specs.size() - 1)];
  switch (g.in(0, 3)) {
    case 0:
      m->erase(s.name);
      break;
    case 1: {
      std::vector<uint64_t> x(s.len + 1, 0);
      m->erase(s.name);
      m->emplace(s.name, SecAggVector(x, s.mod));
      break;
    }
    case 2: {
      std::vector<uint64_t> x(s.len, 0);
      m->erase(s.name);
      m->emplace(s.name, SecAggVector(x, s.mod == (1ull << 62) ? 5 : s.mod + 1));
      break;
    }
    default:
      m->emplace("unknown", SecAggVector(std::vector<uint64_t>(1, 0), 8));
  }
  return m;
}

// ---- schedulers under control of the driver ----------------------------------
class ManualScheduler : public Scheduler {
 public:
  ManualScheduler(Rng* g, bool fifo) : g_(g), fifo_(fifo) {}
  void Schedule(std::function<void()> task) override { q_.push_back(std::move(task)); }
  void WaitUntilIdle() override {
    while (!q_.empty()) Step();
  }
  bool empty() const { return q_.empty(); }
  void Step() {
    size_t k = fifo_ ? 0 : g_->in(0, q_.size() - 1);
    auto t = std::move(q_[k]);
    q_.erase(q_.begin() + k);
    t();
  }

 private:
  Rng* g_;
  bool fifo_;
  std::deque<std::function<void()>> q_;
};

class Experiments : public ExperimentsInterface {
 public:
  explicit Experiments(std::set<std::string> s) : s_(std::move(s)) {}
  bool IsEnabled(absl::string_view n) override { return s_.count(std::string(n)); }

 private:
  std::set<std::string> s_;
};

struct Outbox : SendToClientsInterface {
  std::vector<std::pair<int, S2C>> out;
  void Send(uint32_t id, const S2C& m) override { out.push_back({static_cast<int>(id), m}); }
};

struct ClientSender : SendToServerInterface {
  std::vector<C2S>* out;
  explicit ClientSender(std::vector<C2S>* o) : out(o) {}
  void Send(C2S* m) override {
    out->emplace_back();
    out->back().Swap(m);
  }
};

struct Listener : StateTransitionListenerInterface {
  void Transition(ClientState) override {}
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};

// ---- one session -----------------------------------------------------------------
struct Session {
  Rng& g;
  bool threads;
  int n, min, deg, thr;
  bool async;
  int fault;  // percent
  std::vector<VecSpec> specs;
  std::unique_ptr<ManualScheduler> mpar, mseq;
  std::unique_ptr<Scheduler> tpar, tseq;
  Outbox outbox;
  std::unique_ptr<SecAggServer> server;
  struct Cl {
    std::unique_ptr<SecAggClient> c;
    std::vector<C2S> sent;
    std::deque<C2S> up;    // to server
    std::deque<S2C> down;  // to client
    bool started = false, input = false, silent = false;
    std::vector<int> nbr;
    std::string noise, enc;
  };
  std::vector<Cl> cl;
  std::map<std::pair<std::string, std::string>, int> keyOwner;
  struct Cipher {
    int from, to;
    bool bad;
  };
  std::map<std::string, Cipher> ciphers;
  bool honest = true;

  Session(Rng& g, bool threads) : g(g), threads(threads) {}

  std::string DescC2S(const C2S& m) {
    if (m.has_abort()) return "{\"k\":\"abt\"}";
    if (m.has_advertise_keys()) {
      auto& p = m.advertise_keys().pair_of_public_keys();
      bool ok = p.noise_pk().size() == EcdhPublicKey::kSize && p.enc_pk().size() == EcdhPublicKey::kSize;
      return absl::StrCat("{\"k\":\"adv\",\"ok\":", ok ? "true" : "false", "}");
    }
    if (m.has_share_keys_response()) {
      std::vector<bool> pr;
      for (auto& s : m.share_keys_response().encrypted_key_shares()) pr.push_back(!s.empty());
      return absl::StrCat("{\"k\":\"shr\",\"pr\":", Bs(pr), "}");
    }
    if (m.has_masked_input_response()) {
      auto& v = m.masked_input_response().vectors();
      bool ok = v.size() == specs.size();
      for (auto& s : specs) {
        auto it = v.find(s.name);
        size_t want = (static_cast<size_t>(s.len) * SecAggVector::GetBitWidth(s.mod) + 7) / 8;
        ok = ok && it != v.end() && it->second.encoded_vector().size() == want;
      }
      return absl::StrCat("{\"k\":\"msk\",\"ok\":", ok ? "true" : "false", "}");
    }
    if (m.has_unmasking_response()) {
      std::vector<std::string> sh;
      for (auto& s : m.unmasking_response().noise_or_prf_key_shares())
        sh.push_back(s.has_noise_sk_share() ? "noise" : s.has_prf_sk_share() ? "prf" : "none");
      return absl::StrCat("{\"k\":\"unm\",\"sh\":", Ss(sh), "}");
    }
    return "{\"k\":\"nil\"}";
  }
  // As the server sent it.
  std::string DescS2C(int to, const S2C& m) {
    std::string h = absl::StrCat("{\"to\":", to, ",\"k\":");
    if (m.has_abort())
      return h + "\"abt\",\"early\":" + (m.abort().early_success() ? "true}" : "false}");
    if (m.has_share_keys_request()) {
      std::vector<int> nb;
      for (auto& p : m.share_keys_request().pairs_of_public_keys()) {
        if (p.noise_pk().empty() && p.enc_pk().empty()) {
          nb.push_back(-1);
        } else {
          auto it = keyOwner.find({p.noise_pk(), p.enc_pk()});
          nb.push_back(it == keyOwner.end() ? -2 : it->second);
        }
      }
      std::string sid;
      for (unsigned char c : m.share_keys_request().session_id()) sid += "0123456789abcdef"[c & 15];
      return h + "\"skq\",\"nbk\":" + Is(nb) + ",\"sid\":\"" + sid + "\"}";
    }
    if (m.has_masked_input_request()) {
      std::vector<int> src;
      for (auto& s : m.masked_input_request().encrypted_key_shares()) {
        if (s.empty()) {
          src.push_back(-1);
        } else {
          auto it = ciphers.find(s);
          src.push_back(it == ciphers.end() || it->second.to != to ? -2 : it->second.from);
        }
      }
      return h + "\"miq\",\"src\":" + Is(src) + "}";
    }
    if (m.has_unmasking_request()) {
      std::vector<int> d(m.unmasking_request().dead_3_client_ids().begin(),
                         m.unmasking_request().dead_3_client_ids().end());
      return h + "\"umq\",\"dead\":" + Is(d) + "}";
    }
    return h + "\"nil\"}";
  }
  // As the client sees it.
  std::string SeenS2C(int me, const S2C& m) {
    if (m.has_abort())
      return std::string("{\"k\":\"abt\",\"early\":") + (m.abort().early_success() ? "true}" : "false}");
    if (m.has_share_keys_request()) {
      std::vector<std::string> pk;
      for (auto& p : m.share_keys_request().pairs_of_public_keys())
        pk.push_back(p.noise_pk().empty() || p.enc_pk().empty() ? "empty"
                     : p.noise_pk() == cl[me].noise && p.enc_pk() == cl[me].enc ? "self" : "ok");
      return absl::StrCat("{\"k\":\"skq\",\"sid\":",
                          m.share_keys_request().session_id().size() == 32 ? "true" : "false",
                          ",\"pk\":", Ss(pk), "}");
    }
    if (m.has_masked_input_request()) {
      std::vector<std::string> e;
      for (auto& s : m.masked_input_request().encrypted_key_shares())
        e.push_back(s.empty() ? "empty" : ciphers.count(s) && !ciphers[s].bad && ciphers[s].to == me ? "ok" : "bad");
      return "{\"k\":\"miq\",\"enc\":" + Ss(e) + "}";
    }
    if (m.has_unmasking_request()) {
      std::vector<int> d(m.unmasking_request().dead_3_client_ids().begin(),
                         m.unmasking_request().dead_3_client_ids().end());
      return "{\"k\":\"umq\",\"dead\":" + Is(d) + "}";
    }
    return "{\"k\":\"nil\"}";
  }

  // "T": surely no background work, "F": surely some, "U": unknown.
  std::string Idle() {
    if (threads) return quiesced ? "T" : "U";
    return mpar->empty() && mseq->empty() ? "T" : "F";
  }
  bool quiesced = true;

  std::string Obs() {
    static const char* rounds[] = {"?", "R0", "R1", "R2", "R3", "PRNG", "COMPLETED", "ABORTED"};
    auto& s = *server;
    std::vector<int> dead;
    for (auto i : s.AbortedClientIds()) dead.push_back(i);
    std::sort(dead.begin(), dead.end());
    auto num = [](const StatusOr<int>& x) {
      return x.ok() ? *x : x.status().code() == absl::StatusCode::kFailedPrecondition ? -1 : -2;
    };
    auto rdy = s.ReadyForNextRound();
    return absl::StrCat(
        "{\"round\":\"", rounds[static_cast<int>(s.State())], "\",\"alive\":", s.NumberOfAliveClients(),
        ",\"pend\":", s.NumberOfPendingClients(),
        ",\"fb\":", s.NumberOfClientsFailedBeforeSendingMaskedInput(),
        ",\"fa\":", s.NumberOfClientsFailedAfterSendingMaskedInput(),
        ",\"tw\":", s.NumberOfClientsTerminatedWithoutUnmasking(), ",\"inc\":", s.NumberOfIncludedInputs(),
        ",\"com\":", s.IsNumberOfIncludedInputsCommitted() ? "true" : "false",
        ",\"need\":", num(s.MinimumMessagesNeededForNextRound()),
        ",\"fin\":", num(s.NumberOfClientsReadyForNextRound()),
        ",\"rcv\":", num(s.NumberOfMessagesReceivedInThisRound()), ",\"ready\":\"",
        rdy.ok() ? (*rdy ? "T" : "F") : "ERR", "\",\"ab\":", s.IsAborted() ? "true" : "false",
        ",\"co\":", s.IsCompletedSuccessfully() ? "true" : "false",
        ",\"err\":", s.ErrorMessage().ok() ? "true" : "false", ",\"dead\":", Is(dead), "}");
  }

  void LogServer(const std::string& op, int id, const std::string& m, const std::string& ret,
                 const std::string& idle0, const std::string& val = "[]", bool tell = false) {
    std::vector<std::string> out;
    for (auto& [to, msg] : outbox.out) {
      out.push_back(DescS2C(to, msg));
      if (to >= 0 && to < n) {
        if (msg.has_share_keys_request()) {
          cl[to].nbr.clear();
          for (auto& p : msg.share_keys_request().pairs_of_public_keys()) {
            auto it = keyOwner.find({p.noise_pk(), p.enc_pk()});
            cl[to].nbr.push_back(it == keyOwner.end() ? -1 : it->second);
          }
        }
        cl[to].down.push_back(msg);
      }
    }
    outbox.out.clear();
    if (threads) {
      auto st = server->State();
      if (!((st == SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION && async) ||
            st == SecAggServerStateKind::PRNG_RUNNING))
        quiesced = true;
    }
    std::string o = Obs();
    (*T)(Ev("s").s("op", op).i("id", id).raw("m", m.empty() ? "{\"k\":\"nil\"}" : m).s("ret", ret)
             .s("i0", idle0).s("i1", Idle()).b("tell", tell).raw("out", Join(out)).raw("val", val).raw("o", o));
  }

  void LogClient(const std::string& op, int id, const std::string& m, const std::string& ret, bool ok,
                 const std::string& val = "[]") {
    auto& c = cl[id];
    std::vector<std::string> out;
    for (auto& msg : c.sent) {
      if (msg.has_share_keys_response()) {
        auto& sh = msg.share_keys_response();
        for (int p = 0; p < sh.encrypted_key_shares_size(); ++p)
          if (!sh.encrypted_key_shares(p).empty())
            ciphers[sh.encrypted_key_shares(p)] = {id, p < static_cast<int>(c.nbr.size()) ? c.nbr[p] : -9, false};
      }
      out.push_back(DescC2S(msg));
      if (msg.has_advertise_keys()) {
        c.noise = msg.advertise_keys().pair_of_public_keys().noise_pk();
        c.enc = msg.advertise_keys().pair_of_public_keys().enc_pk();
        keyOwner[{c.noise, c.enc}] = id;
      }
      c.up.push_back(msg);
    }
    c.sent.clear();
    (*T)(Ev("c").s("op", op).i("id", id).raw("m", m.empty() ? "{\"k\":\"nil\"}" : m).s("ret", ret).b("ok", ok)
             .raw("out", Join(out)).raw("val", val).s("st", c.c->State()).b("ab", c.c->IsAborted())
             .b("co", c.c->IsCompletedSuccessfully()));
  }

  // ---- steps ----
  void Start(int i) {
    cl[i].started = true;
    auto r = cl[i].c->Start();
    LogClient("start", i, "", Ret(r), true);
  }
  void Input(int i, bool ok) {
    if (!ok) {
      auto r = cl[i].c->SetInput(BadInput(g, specs));
      LogClient("input", i, "", Ret(r), false);
      return;
    }
    Values v = RandomValues(g, specs);
    auto r = cl[i].c->SetInput(ToMap(v, specs));
    if (r.ok()) cl[i].input = true;
    LogClient("input", i, "", Ret(r), true, ValuesJson(v));
  }
  void ClientAbort(int i) {
    auto r = g.chance(50) ? cl[i].c->Abort() : cl[i].c->Abort("why");
    LogClient("abort", i, "", Ret(r), true);
  }
  void Deliver(int i, bool dup) {
    S2C m = cl[i].down.front();
    if (!dup) cl[i].down.pop_front();
    std::string d = SeenS2C(i, m);
    auto r = cl[i].c->ReceiveMessage(m);
    LogClient("recv", i, d, Ret(r), true);
  }
  void ServerRecv(int i, C2S m) {
    std::string d = DescC2S(m);
    std::string i0 = threads && async && !server->IsAborted() &&
                             server->State() == SecAggServerStateKind::R2_MASKED_INPUT_COLLECTION
                         ? (quiesced = false, "U")
                         : Idle();
    bool wasIdle = !threads && i0 == "T";
    auto r = server->ReceiveMessage(i, std::make_unique<C2S>(m));
    // Work that this very message caused counts for its own answer.
    if (wasIdle) i0 = Idle();
    LogServer("recv", i, d, Ret(r), i0);
  }
  void Proceed() {
    std::string i0 = Idle();
    bool entering = server->State() == SecAggServerStateKind::R3_UNMASKING;
    auto r = server->ProceedToNextRound();
    if (entering && r.ok()) quiesced = false;
    LogServer("proceed", -1, "", Ret(r), i0);
  }
  void AbortClient(int i) {
    static const ClientAbortReason rs[] = {ClientAbortReason::INVALID_MESSAGE, ClientAbortReason::CONNECTION_DROPPED,
                                           ClientAbortReason::NOT_CHECKED_IN};
    auto reason = rs[g.in(0, 2)];
    std::string i0 = Idle();
    auto r = server->AbortClient(i, reason);
    LogServer("abortc", i, "", Ret(r), i0, "[]", reason == ClientAbortReason::INVALID_MESSAGE);
  }
  void ServerAbort() {
    std::string i0 = Idle();
    auto r = g.chance(50) ? server->Abort() : server->Abort("r", SecAggServerOutcome::EXTERNAL_REQUEST);
    LogServer("abort", -1, "", Ret(r), i0);
  }
  void Result() {
    std::string i0 = Idle();
    auto r = server->Result();
    std::string val = "[]";
    if (r.ok()) {
      Values v;
      bool names = (*r)->size() == specs.size();
      for (auto& s : specs) {
        auto it = (*r)->find(s.name);
        if (it == (*r)->end() || it->second.modulus() != s.mod) {
          names = false;
          continue;
        }
        v[s.name] = it->second.GetAsUint64Vector();
      }
      val = names ? ValuesJson(v) : "[[[-1,0,0]]]";
    }
    LogServer("result", -1, "", Ret(r.status()), i0, val);
  }
  void Background() {
    if (threads) {
      // Ask to be called back when the background work is finished.
      auto called = std::make_shared<std::pair<std::mutex, std::condition_variable>>();
      auto count = std::make_shared<int>(0);
      bool set = g.chance(60) && server->SetAsyncCallback([called, count] {
        std::lock_guard<std::mutex> l(called->first);
        ++*count;
        called->second.notify_all();
      });
      bool got = true;
      if (set) {
        std::unique_lock<std::mutex> l(called->first);
        got = called->second.wait_for(l, std::chrono::seconds(30), [&] { return *count > 0; });
      }
      tpar->WaitUntilIdle();
      tseq->WaitUntilIdle();
      tpar->WaitUntilIdle();
      tseq->WaitUntilIdle();
      quiesced = true;
      std::lock_guard<std::mutex> l(called->first);
      LogServer("bg", -1, "", !got ? "NO" : *count > 1 ? "TWICE" : "OK", "U");
      return;
    }
    ManualScheduler* s = mpar->empty() ? mseq.get() : mseq->empty() ? mpar.get() : g.chance(50) ? mpar.get() : mseq.get();
    s->Step();
    LogServer("bg", -1, "", "OK", "U");
  }

  C2S Corrupt(int i, const C2S& orig) {
    C2S m = orig;
    switch (g.in(0, 9)) {
      case 0: {  // another kind of message
        C2S o;
        switch (g.in(0, 4)) {
          case 0: o.mutable_abort(); break;
          case 1: o.mutable_unmasking_response(); break;
          case 2: o.mutable_masked_input_response(); break;
          case 3: o.mutable_share_keys_response(); break;
          default: break;
        }
        return o;
      }
      case 1: {  // key of wrong size or swapped kind
        C2S o;
        o.mutable_advertise_keys()->mutable_pair_of_public_keys()->set_noise_pk(std::string(g.in(0, 40), 'x'));
        return o;
      }
      default: break;
    }
    if (m.has_advertise_keys()) {
      auto* p = m.mutable_advertise_keys()->mutable_pair_of_public_keys();
      if (g.chance(50)) p->mutable_noise_pk()->pop_back(); else p->mutable_enc_pk()->push_back('x');
    } else if (m.has_share_keys_response()) {
      auto* s = m.mutable_share_keys_response();
      int k = g.in(0, s->encrypted_key_shares_size() - 1);
      switch (g.in(0, 3)) {
        case 0: s->mutable_encrypted_key_shares()->RemoveLast(); break;
        case 1: s->add_encrypted_key_shares("extra"); break;
        case 2:
          if (s->encrypted_key_shares(k).empty()) s->set_encrypted_key_shares(k, "odd");
          else s->set_encrypted_key_shares(k, "");
          break;
        default: {  // undecryptable for the receiver
          if (!s->encrypted_key_shares(k).empty()) {
            std::string x = s->encrypted_key_shares(k);
            x[g.in(0, x.size() - 1)] ^= 1 << g.in(0, 7);
            auto orig = ciphers[s->encrypted_key_shares(k)];
            ciphers[x] = {i, orig.to, true};
            s->set_encrypted_key_shares(k, x);
          }
        }
      }
    } else if (m.has_masked_input_response()) {
      auto* v = m.mutable_masked_input_response()->mutable_vectors();
      switch (g.in(0, 2)) {
        case 0: v->erase(specs[g.in(0, specs.size() - 1)].name); break;
        case 1: (*v)["more"].set_encoded_vector("x"); break;
        default: {
          auto* e = (*v)[specs[g.in(0, specs.size() - 1)].name].mutable_encoded_vector();
          if (g.chance(50) && !e->empty()) e->pop_back(); else e->push_back('x');
        }
      }
    } else if (m.has_unmasking_response()) {
      auto* s = m.mutable_unmasking_response()->mutable_noise_or_prf_key_shares();
      if (s->empty()) return m;
      int k = g.in(0, s->size() - 1);
      switch (g.in(0, 3)) {
        case 0: s->RemoveLast(); break;
        case 1:
          if (s->Get(k).has_prf_sk_share()) { std::string x = s->Get(k).prf_sk_share(); s->Mutable(k)->set_noise_sk_share(x); }
          else s->Mutable(k)->set_prf_sk_share(std::string(36, 'x'));
          break;
        case 2: s->Mutable(k)->clear_oneof_shares(); break;
        default: s->Add(); break;
      }
    }
    return m;
  }

  bool ServerOver() { return server->IsAborted() || server->IsCompletedSuccessfully(); }

  bool Create() {
    int kind = g.in(0, 9);  // 0-5 full, 6-8 forced subgraph, 9 default
    n = kind >= 6 && kind <= 8 ? g.in(4, 9) : g.in(2, 6);
    if (g.chance(3)) n = g.in(12, 18);
    std::set<std::string> ex;
    if (kind <= 5) ex.insert("FULLGRAPH_SECAGG");
    else if (kind <= 8) ex.insert("FORCE_SUBGRAPH_SECAGG_FOR_TEST");
    async = g.chance(50);
    if (async) ex.insert("secagg_async_round_2");
    min = g.in(2, std::max(2, n));
    if (g.chance(50)) min = std::max(2, n / 2);
    specs = RandomSpecs(g);
    if (threads) {
      tpar = CreateThreadPoolScheduler(g.in(1, 3));
      tseq = CreateThreadPoolScheduler(1);
    } else {
      mpar = std::make_unique<ManualScheduler>(&g, false);
      mseq = std::make_unique<ManualScheduler>(&g, true);
    }
    Scheduler* p = threads ? tpar.get() : mpar.get();
    Scheduler* q = threads ? tseq.get() : mseq.get();
    SecureAggregationRequirements tm;
    tm.set_adversary_class(AdversaryClass::NONE);
    tm.set_adversarial_client_rate(0);
    tm.set_estimated_dropout_rate(0.95);
    auto s = SecAggServer::Create(min, n, ToSpecs(specs), &outbox, nullptr,
                                  std::make_unique<SecAggScheduler>(p, q), std::make_unique<Experiments>(ex), tm);
    if (!s.ok()) return false;
    server = *std::move(s);
    deg = server->NumberOfNeighbors();
    thr = server->MinimumSurvivingNeighborsForReconstruction();
    cl.resize(n);
    for (auto& c : cl)
      c.c = std::make_unique<SecAggClient>(deg, thr, ToSpecs(specs), std::make_unique<CryptoRandPrng>(),
                                           std::make_unique<ClientSender>(&c.sent), std::make_unique<Listener>(),
                                           std::make_unique<AesCtrPrngFactory>());
    return true;
  }

  void Run(int run) {
    while (!Create()) {
      mpar.reset();
      mseq.reset();
    }
    static const int levels[] = {0, 0, 1, 2, 6, 15};
    fault = levels[g.in(0, 5)];
    // Bias: which clients answer slowly or never in which round.
    int slow = g.in(0, 3) == 0 ? g.in(0, n / 2) : 0;
    if (fault) for (int i = 0; i < slow; ++i) cl[g.in(0, n - 1)].silent = true;
    honest = fault == 0;
    std::vector<std::string> mods, lens;
    for (auto& s : specs) mods.push_back(Limbs(s.mod)), lens.push_back(std::to_string(s.len));
    (*T)(Ev("reset").i("run", run).i("n", n).i("min", min).i("deg", deg).i("thr", thr).b("async", async)
             .b("honest", honest).raw("mods", Join(mods)).raw("lens", Join(lens)).raw("o", Obs()));
    int patience = 0;
    for (int step = 0; step < 60 * n + 200 && !ServerOver(); ++step) {
      if (fault && g.chance(fault)) {
        int i = g.in(0, n - 1);
        switch (g.in(0, 11)) {
          case 0: AbortClient(g.chance(10) ? n + g.in(0, 3) : i); continue;
          case 1: ClientAbort(i); continue;
          case 2: if (g.chance(4)) { ServerAbort(); continue; } break;
          case 3: Proceed(); continue;
          case 4: Result(); continue;
          case 5: Input(i, g.chance(50)); continue;
          case 6: Start(i); continue;
          case 7: if (!cl[i].down.empty()) { Deliver(i, true); continue; } break;
          case 8: if (!cl[i].up.empty()) { ServerRecv(i, cl[i].up.front()); continue; } break;  // duplicated
          case 9: if (!cl[i].up.empty()) { C2S m = Corrupt(i, cl[i].up.front()); cl[i].up.pop_front(); ServerRecv(i, m); continue; } break;
          case 10: if (!cl[i].up.empty()) { ServerRecv(n + g.in(0, 2), cl[i].up.front()); continue; } break;
          case 11: cl[i].silent = g.chance(50); continue;
        }
      }
      // regular progress
      std::vector<std::function<void()>> acts;
      for (int i = 0; i < n; ++i) {
        if (cl[i].silent) continue;
        if (!cl[i].started) acts.push_back([=] { Start(i); });
        if (!cl[i].input && (cl[i].started || g.chance(30)) && !cl[i].c->IsAborted()) acts.push_back([=] { Input(i, true); });
        if (!cl[i].down.empty()) acts.push_back([=] { Deliver(i, false); });
        if (!cl[i].up.empty()) acts.push_back([=] {
          C2S m = cl[i].up.front();
          cl[i].up.pop_front();
          ServerRecv(i, m);
        });
      }
      auto ready = server->ReadyForNextRound();
      if (ready.ok() && *ready && (acts.empty() || g.chance(honest ? 4 : 8))) {
        // Leaving some behind may cut a sparse graph.
        if (!acts.empty() && deg < n) honest = false;
        Proceed();
        continue;
      }
      if (threads ? !quiesced : Idle() == "F")
        if (acts.empty() || g.chance(30)) {
          Background();
          continue;
        }
      if (acts.empty()) {
        // Somebody is missing: give up on them, one by one.
        if (++patience > 3 * n + 20) break;
        if (g.chance(40)) {
          for (auto& c : cl) c.silent = false;
        } else {
          AbortClient(g.in(0, n - 1));
        }
        continue;
      }
      acts[g.in(0, acts.size() - 1)]();
    }
    if (!ServerOver() && g.chance(50)) ServerAbort();
    Result();
    if (g.chance(30)) Result();
    // Whatever is still under way must be harmless.
    for (int i = 0; i < n; ++i) {
      while (!cl[i].down.empty() && g.chance(90)) Deliver(i, false);
      if (!cl[i].up.empty() && g.chance(30)) ServerRecv(i, cl[i].up.front());
    }
    if (ServerOver()) {
      for (int k = g.in(0, 3); k > 0; --k)
        switch (g.in(0, 5)) {
          case 0: Proceed(); break;
          case 1: ServerAbort(); break;
          case 2: AbortClient(g.in(0, n - 1)); break;
          case 3: ClientAbort(g.in(0, n - 1)); break;
          case 4: Start(g.in(0, n - 1)); break;
          default: Input(g.in(0, n - 1), true); break;
        }
    }
    (*T)(Ev("end").b("honest", honest));
    if (threads) {
      tpar->WaitUntilIdle();
      tseq->WaitUntilIdle();
    } else {
      for (int k = 0; k < 3; ++k) mpar->WaitUntilIdle(), mseq->WaitUntilIdle();
    }
    server.reset();
  }
};

// ---- one client against an adversarial server -----------------------------------------
// Calls the hook whenever the client draws randomness, i.e. in the middle of
// its computations.
struct Hook {
  std::function<void()> f;
  int countdown = -1;
  void Tick() {
    if (countdown > 0 && --countdown == 0 && f) f();
  }
};
struct HookedPrng : SecurePrng {
  CryptoRandPrng p;
  Hook* h;
  explicit HookedPrng(Hook* h) : h(h) {}
  uint8_t Rand8() override {
    h->Tick();
    return p.Rand8();
  }
  uint64_t Rand64() override {
    h->Tick();
    return p.Rand64();
  }
};
struct HookedFactory : AesPrngFactory {
  AesCtrPrngFactory f;
  Hook* h;
  explicit HookedFactory(Hook* h) : h(h) {}
  std::unique_ptr<SecurePrng> MakePrng(const AesKey& k) const override {
    h->Tick();
    return f.MakePrng(k);
  }
  bool SupportsBatchMode() const override { return true; }
};

struct Solo {
  Rng& g;
  Hook hook;
  std::atomic<std::string*> signal{nullptr};
  int max, min, np;
  std::vector<VecSpec> specs;
  std::vector<C2S> sent;
  std::unique_ptr<SecAggClient> c;
  std::string noise, enc;
  struct Peer {
    std::unique_ptr<EcdhKeyAgreement> noise, enc;
    std::string ns, ps;     // the shares of this peer's secrets given to the client
    std::string gotN, gotP; // the shares of the client's secrets given to this peer
    bool alive = false;
  };
  std::vector<Peer> peers;  // by position
  int me = -1;
  Values input;
  bool hasInput = false;

  explicit Solo(Rng& g) : g(g) {}

  std::string Bytes(int k) {
    std::string r;
    for (int i = 0; i < k; ++i) r += static_cast<char>(g.in(0, 255));
    return r;
  }

  // Examines the shares that the client encrypted for its peers.
  std::string Shares(const ShareKeysResponse& r) {
    std::vector<bool> pr, dec;
    std::set<std::string> all;
    int count = 0;
    AesGcmEncryption gcm;
    std::vector<ShamirShare> ns(r.encrypted_key_shares_size()), ps(r.encrypted_key_shares_size());
    for (int p = 0; p < r.encrypted_key_shares_size(); ++p) {
      const std::string& ct = r.encrypted_key_shares(p);
      pr.push_back(!ct.empty());
      bool ok = ct.empty();
      if (!ct.empty() && p < static_cast<int>(peers.size()) && peers[p].enc) {
        auto key = peers[p].enc->ComputeSharedSecret(EcdhPublicKey(reinterpret_cast<const uint8_t*>(enc.data())));
        auto plain = gcm.Decrypt(*key, ct);
        PairOfKeyShares s;
        if (plain.ok() && s.ParseFromString(*plain) && !s.noise_sk_share().empty() && !s.prf_sk_share().empty()) {
          ok = true;
          peers[p].gotN = ns[p].data = s.noise_sk_share();
          peers[p].gotP = ps[p].data = s.prf_sk_share();
          all.insert("n" + s.noise_sk_share());
          all.insert("p" + s.prf_sk_share());
          count += 2;
        }
      }
      dec.push_back(ok);
    }
    // min shares determine the secret key, min - 1 do not.
    int have = count / 2;
    bool rec = true, sec = true;
    auto opens = [&](int t) {
      ShamirSecretSharing sh;
      std::vector<ShamirShare> x(ns.size());
      int k = 0;
      for (size_t i = 0; i < ns.size() && k < t; ++i)
        if (!ns[i].data.empty()) x[i] = ns[i], ++k;
      auto s = sh.Reconstruct(t, x, EcdhPrivateKey::kSize);
      if (!s.ok()) return false;
      auto ka = EcdhKeyAgreement::CreateFromPrivateKey(EcdhPrivateKey(reinterpret_cast<const uint8_t*>(s->data())));
      if (!ka.ok()) return false;
      for (auto& p : peers)
        if (p.noise) {
          auto a = (*ka)->ComputeSharedSecret(p.noise->PublicKey());
          auto b = p.noise->ComputeSharedSecret(EcdhPublicKey(reinterpret_cast<const uint8_t*>(noise.data())));
          return a.ok() && b.ok() && *a == *b;
        }
      return false;
    };
    if (have >= min && min >= 2) rec = opens(min);
    if (min - 1 >= 2 && have >= min - 1) sec = !opens(min - 1);
    return absl::StrCat("{\"k\":\"shr\",\"pr\":", Bs(pr), ",\"dec\":", Bs(dec),
                        ",\"dist\":", static_cast<int>(all.size()) == count ? "true" : "false",
                        ",\"rec\":", rec ? "true" : "false", ",\"sec\":", sec ? "true" : "false", "}");
  }

  std::string Desc(const C2S& m) {
    if (m.has_abort()) return "{\"k\":\"abt\"}";
    if (m.has_advertise_keys()) {
      noise = m.advertise_keys().pair_of_public_keys().noise_pk();
      enc = m.advertise_keys().pair_of_public_keys().enc_pk();
      bool ok = noise.size() == EcdhPublicKey::kSize && enc.size() == EcdhPublicKey::kSize && noise != enc;
      return absl::StrCat("{\"k\":\"adv\",\"ok\":", ok ? "true" : "false", "}");
    }
    if (m.has_share_keys_response()) return Shares(m.share_keys_response());
    if (m.has_masked_input_response()) {
      // The input must not be readable from the message.
      bool ok = m.masked_input_response().vectors().size() == specs.size(), hid = true;
      double bits = 0, same = 0;
      for (auto& s : specs) {
        auto it = m.masked_input_response().vectors().find(s.name);
        size_t want = (static_cast<size_t>(s.len) * SecAggVector::GetBitWidth(s.mod) + 7) / 8;
        if (it == m.masked_input_response().vectors().end() || it->second.encoded_vector().size() != want) {
          ok = false;
          continue;
        }
        auto v = SecAggVector(it->second.encoded_vector(), s.mod, s.len).GetAsUint64Vector();
        bool eq = v == input[s.name];
        bits += SecAggVector::GetBitWidth(s.mod) * s.len;
        if (SecAggVector::GetBitWidth(s.mod) * s.len > 60 && eq) hid = false;
      }
      return absl::StrCat("{\"k\":\"msk\",\"ok\":", ok ? "true" : "false", ",\"hid\":", hid ? "true" : "false", "}");
    }
    if (m.has_unmasking_response()) {
      std::vector<std::string> sh;
      int p = 0;
      for (auto& s : m.unmasking_response().noise_or_prf_key_shares()) {
        std::string d = s.has_noise_sk_share() ? "noise" : s.has_prf_sk_share() ? "prf" : "none";
        if (p < static_cast<int>(peers.size())) {
          if (p == me) {
            if (d == "prf") d = OwnShare(s.prf_sk_share()) ? "prf" : "wrong";
          } else if (d == "noise" && s.noise_sk_share() != peers[p].ns) {
            d = "wrong";
          } else if (d == "prf" && s.prf_sk_share() != peers[p].ps) {
            d = "wrong";
          }
        }
        sh.push_back(d);
        ++p;
      }
      return "{\"k\":\"unm\",\"sh\":" + Ss(sh) + "}";
    }
    return "{\"k\":\"nil\"}";
  }
  // Is this the client's own share of the secret whose other shares it gave away?
  bool OwnShare(const std::string& x) {
    std::vector<ShamirShare> a(peers.size()), b(peers.size());
    int have = 0;
    for (size_t p = 0; p < peers.size(); ++p)
      if (static_cast<int>(p) != me && !peers[p].gotP.empty() && have < min) a[p].data = peers[p].gotP, ++have;
    if (have < min) return true;
    b = a;
    for (size_t p = 0; p < b.size(); ++p)
      if (!b[p].data.empty()) {
        b[p].data.clear();
        break;
      }
    b[me].data = x;
    ShamirSecretSharing s1, s2;
    auto u = s1.Reconstruct(min, a, 32), v = s2.Reconstruct(min, b, 32);
    return u.ok() && v.ok() && *u == *v;
  }

  void Log(const std::string& op, const std::string& m, const std::string& ret, bool ok) {
    std::vector<std::string> out;
    for (auto& x : sent) out.push_back(Desc(x));
    sent.clear();
    (*T)(Ev("c").s("op", op).i("id", 0).raw("m", m.empty() ? "{\"k\":\"nil\"}" : m).s("ret", ret).b("ok", ok)
             .raw("out", Join(out)).raw("val", "[]").s("st", c->State()).b("ab", c->IsAborted())
             .b("co", c->IsCompletedSuccessfully()));
  }

  // Runs f while, in its middle, another thread aborts the client.
  std::string WithAbort(bool use, const std::function<std::string()>& f, bool* fired) {
    *fired = false;
    if (!use) return f();
    std::thread t;
    hook.countdown = g.in(1, 12);
    hook.f = [&] {
      *fired = true;
      t = std::thread([&] { (void)c->Abort("now"); });
      for (int k = 0; k < 2000 && signal.load() == nullptr; ++k) std::this_thread::sleep_for(std::chrono::microseconds(50));
    };
    std::string r = f();
    hook.f = nullptr;
    hook.countdown = -1;
    if (t.joinable()) t.join();
    return r;
  }

  void Input(bool ok) {
    bool fired;
    Values v = RandomValues(g, specs);
    if (ok && !hasInput) input = v;
    std::string r = WithAbort(g.chance(8), [&] { return Ret(c->SetInput(ok ? ToMap(v, specs) : BadInput(g, specs))); }, &fired);
    if (r == "OK") hasInput = true;
    Log(fired ? "inputab" : "input", "", r, ok);
  }
  void Recv(const S2C& m, const std::string& desc) {
    bool fired;
    std::string r = WithAbort(g.chance(10), [&] { return Ret(c->ReceiveMessage(m)); }, &fired);
    Log(fired ? "recvab" : "recv", desc, r, true);
  }

  void Skq(int trouble) {
    S2C m;
    auto* q = m.mutable_share_keys_request();
    int n = trouble == 1 ? g.in(0, max + 2) : g.in(std::min(min, max), max);
    int self = n ? g.in(0, n - 1) : -1;
    if (trouble == 2) self = -1;
    int self2 = trouble == 3 && n > 1 ? (self + 1) % n : -1;
    int deadpct = trouble == 4 ? 70 : g.chance(50) ? 0 : 15;
    int bad = trouble == 5 && n ? g.in(0, n - 1) : -1;
    std::vector<std::string> pk;
    std::vector<Peer> np(n);
    for (int p = 0; p < n; ++p) {
      auto* k = q->add_pairs_of_public_keys();
      if (p == self || p == self2) {
        k->set_noise_pk(noise);
        k->set_enc_pk(enc);
        pk.push_back("self");
        np[p].alive = true;
        continue;
      }
      if (p == bad) {
        auto a = EcdhKeyAgreement::CreateFromRandomKeys().value();
        k->set_noise_pk(a->PublicKey().AsString());
        k->set_enc_pk(a->PublicKey().AsString());
        switch (g.in(0, 3)) {
          case 0: k->mutable_noise_pk()->pop_back(); break;
          case 1: k->mutable_enc_pk()->push_back('x'); break;
          case 2: k->set_noise_pk(std::string(33, 'z')); break;
          default: k->set_enc_pk(std::string(33, 'z')); break;
        }
        pk.push_back("bad");
        continue;
      }
      if (g.chance(deadpct)) {
        pk.push_back("empty");
        if (g.chance(20)) {  // only one of the keys is missing
          auto a = EcdhKeyAgreement::CreateFromRandomKeys().value();
          if (g.chance(50)) k->set_noise_pk(a->PublicKey().AsString());
          else k->set_enc_pk(a->PublicKey().AsString());
        }
        continue;
      }
      np[p].noise = EcdhKeyAgreement::CreateFromRandomKeys().value();
      np[p].enc = EcdhKeyAgreement::CreateFromRandomKeys().value();
      np[p].alive = true;
      k->set_noise_pk(np[p].noise->PublicKey().AsString());
      k->set_enc_pk(np[p].enc->PublicKey().AsString());
      pk.push_back("ok");
    }
    bool sid = trouble != 6;
    q->set_session_id(Bytes(sid ? 32 : g.in(0, 1) ? 0 : 31));
    if (c->State().rfind("R1", 0) == 0) {
      peers = std::move(np);
      me = self;
    }
    Recv(m, absl::StrCat("{\"k\":\"skq\",\"sid\":", sid ? "true" : "false", ",\"pk\":", Ss(pk), "}"));
  }
  void Miq(int trouble) {
    S2C m;
    auto* q = m.mutable_masked_input_request();
    std::vector<std::string> e;
    AesGcmEncryption gcm;
    int n = peers.size();
    int bad = trouble == 1 && n ? g.in(0, n - 1) : -1;
    int deadpct = trouble == 2 ? 70 : g.chance(50) ? 0 : 15;
    int odd = trouble == 3 && n ? g.in(0, n - 1) : -1;
    for (int p = 0; p < n; ++p) {
      if (p == me || !peers[p].alive) {
        bool o = p == odd && p != me;
        q->add_encrypted_key_shares(o ? Bytes(60) : "");
        e.push_back(o ? "bad" : "empty");
        continue;
      }
      if (p != bad && g.chance(deadpct)) {
        q->add_encrypted_key_shares("");
        e.push_back("empty");
        continue;
      }
      PairOfKeyShares s;
      if (peers[p].ns.empty()) {
        peers[p].ns = Bytes(36);
        peers[p].ps = Bytes(36);
      }
      s.set_noise_sk_share(peers[p].ns);
      s.set_prf_sk_share(peers[p].ps);
      std::string ct = "x";
      if (peers[p].enc)
        ct = gcm.Encrypt(*peers[p].enc->ComputeSharedSecret(EcdhPublicKey(reinterpret_cast<const uint8_t*>(enc.data()))),
                         p == bad && g.chance(30) ? std::string("\xff\xff\xff") : s.SerializeAsString());
      if (p == bad) ct[ct.size() - 1 - g.in(0, ct.size() - 1)] ^= 1;
      q->add_encrypted_key_shares(ct);
      e.push_back(p == bad ? "bad" : "ok");
    }
    if (trouble == 4) {
      q->add_encrypted_key_shares("");
      e.push_back("empty");
    }
    if (trouble == 5 && n) {
      q->mutable_encrypted_key_shares()->RemoveLast();
      e.pop_back();
    }
    Recv(m, "{\"k\":\"miq\",\"enc\":" + Ss(e) + "}");
  }
  void Umq(int trouble) {
    S2C m;
    auto* q = m.mutable_unmasking_request();
    std::vector<int> d;
    int n = peers.size();
    for (int p = 0; p < n; ++p)
      if (p != me && peers[p].alive && !peers[p].ns.empty() && g.chance(trouble == 1 ? 70 : 20)) d.push_back(p + 1);
    if (trouble == 2) d.push_back(me + 1);
    if (trouble == 3) d.push_back(g.chance(50) ? 0 : n + g.in(1, 3));
    if (trouble == 4 && !d.empty()) d.push_back(d[g.in(0, d.size() - 1)]);
    if (trouble == 5) d.push_back(g.in(1, std::max(1, n)));
    if (trouble == 6) {  // one that dropped out before
      std::vector<int> gone;
      for (int p = 0; p < n; ++p)
        if (p != me && (!peers[p].alive || peers[p].ns.empty())) gone.push_back(p + 1);
      if (g.chance(60)) d.clear();
      if (!gone.empty()) d.push_back(gone[g.in(0, gone.size() - 1)]);
    }
    for (int k = d.size() - 1; k > 0; --k) std::swap(d[k], d[g.in(0, k)]);
    for (int x : d) q->add_dead_3_client_ids(x);
    Recv(m, "{\"k\":\"umq\",\"dead\":" + Is(d) + "}");
  }
  void Abt() {
    S2C m;
    bool early = g.chance(50);
    m.mutable_abort()->set_early_success(early);
    Recv(m, std::string("{\"k\":\"abt\",\"early\":") + (early ? "true}" : "false}"));
  }
  void Nil() {
    S2C m;
    Recv(m, "{\"k\":\"nil\"}");
  }

  void Run(int run) {
    max = g.in(2, 7);
    min = g.chance(40) ? 2 : g.in(2, max);
    if (g.chance(5)) max = min - 1 < 1 ? min : max;
    specs = RandomSpecs(g);
    c = std::make_unique<SecAggClient>(max, min, ToSpecs(specs), std::make_unique<HookedPrng>(&hook),
                                       std::make_unique<ClientSender>(&sent), std::make_unique<Listener>(),
                                       std::make_unique<HookedFactory>(&hook), &signal);
    std::vector<std::string> none;
    (*T)(Ev("reset").i("run", run).i("n", 1).i("min", min).i("deg", max).i("thr", min).b("async", false)
             .b("honest", false).raw("mods", "[]").raw("lens", "[]").raw("o", "{\"round\":\"-\"}"));
    int noise = g.chance(60) ? 0 : 12;
    int weak = g.in(1, 6);  // the round in which the server misbehaves; more than 3: none
    bool done = false;
    for (int step = 0; step < 25; ++step) {
      if (g.chance(noise)) {
        switch (g.in(0, 8)) {
          case 0: Log("start", "", Ret(c->Start()), true); continue;
          case 1: Input(false); continue;
          case 2: Input(true); continue;
          case 3: Log("abort", "", Ret(c->Abort()), true); continue;
          case 4: Skq(g.in(0, 6)); continue;
          case 5: Miq(g.in(0, 5)); continue;
          case 6: Umq(g.in(0, 6)); continue;
          case 7: Abt(); continue;
          default: Nil(); continue;
        }
      }
      std::string st = c->State();
      int trouble = noise && g.chance(25) ? g.in(1, 6) : 0;
      if (st.size() > 1 && st[1] == '0' + weak && g.chance(80)) trouble = g.in(1, 6);
      if (!hasInput && g.chance(st.find("WAITING") != std::string::npos ? 80 : 25)) Input(true);
      else if (st.rfind("R0", 0) == 0) Log("start", "", Ret(c->Start()), true);
      else if (st.rfind("R1", 0) == 0) Skq(trouble);
      else if (st.rfind("R2_MASKED_INPUT_COLL_INPUT", 0) == 0) Miq(trouble);
      else if (st.rfind("R3", 0) == 0) Umq(trouble);
      else if (c->IsAborted() || c->IsCompletedSuccessfully()) {
        if (done || !noise) break;
        done = g.chance(50);
      }
    }
    (*T)(Ev("end").b("honest", false));
  }
};

// A session in which one client sends a share of unusual length.
void BadShare(Rng& g) {
  Session s(g, false);
  do {
    s.cl.clear();
  } while (!s.Create() || s.deg < 3 || s.deg != s.n);
  auto flush = [&](bool bad) {
    for (auto& [to, m] : s.outbox.out) (void)s.cl[to].c->ReceiveMessage(m);
    s.outbox.out.clear();
    for (int i = 0; i < s.n; ++i) {
      for (auto& m : s.cl[i].sent) {
        if (bad && i == 0 && m.has_unmasking_response())
          m.mutable_unmasking_response()->mutable_noise_or_prf_key_shares(1)->mutable_prf_sk_share()->pop_back();
        (void)s.server->ReceiveMessage(i, std::make_unique<C2S>(m));
      }
      s.cl[i].sent.clear();
    }
    s.mpar->WaitUntilIdle();
    s.mseq->WaitUntilIdle();
    (void)s.server->ProceedToNextRound();
  };
  for (auto& c : s.cl) (void)c.c->SetInput(ToMap(RandomValues(g, s.specs), s.specs)), (void)c.c->Start();
  for (int k = 0; k < 6; ++k) flush(true);
}

}  // namespace

int main(int argc, char** argv) {
  if (argc != 5) return 3;
  std::string mode = argv[1];
  Rng g(strtoull(argv[2], nullptr, 10));
  int runs = atoi(argv[3]);
  verif::Trace trace(argv[4]);
  T = &trace;
  for (int r = 0; r < runs; ++r) {
    if (mode == "badshare") {
      BadShare(g);
    } else if (mode == "client") {
      Solo s(g);
      s.Run(r);
    } else {
      Session s(g, mode == "threads");
      s.Run(r);
    }
  }
  return 0;
}
