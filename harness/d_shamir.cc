// Drives secret sharing, key reconstruction and the neighbour graphs.
// usage: d_shamir <trace> <seed> <runs>
#include "fcp/secagg/server/secret_sharing_complete_graph.h"
#include "fcp/secagg/server/secret_sharing_graph_factory.h"
#include "fcp/secagg/server/secret_sharing_harary_graph.h"
#include "fcp/secagg/shared/aes_key.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "trace.h"

using namespace fcp::secagg;
using verif::Ev;
using verif::Rng;

namespace {

verif::Trace* tr;

std::vector<int> Bytes(const std::string& s) {
  std::vector<int> v;
  for (unsigned char c : s) v.push_back(c);
  return v;
}

std::string RandomSecret(Rng& g, int len) {
  std::string s(len, 0);
  int kind = g.in(0, 6);
  for (auto& c : s) {
    switch (kind) {
      case 0: c = 0; break;
      case 1: c = '\xff'; break;
      case 2: c = g.chance(50) ? '\xff' : 0; break;
      case 3: c = '\x80'; break;
      case 4: c = '\x7f'; break;
      default: c = static_cast<char>(g.in(0, 255));
    }
  }
  if (g.chance(30)) {
    int z = g.in(0, len);
    for (int i = 0; i < z; ++i) s[i] = 0;
  }
  return s;
}

std::vector<std::vector<int>> Subsets(Rng& g, int n, int t) {
  std::vector<std::vector<int>> out;
  if (n <= 5) {
    for (int m = 0; m < (1 << n); ++m) {
      std::vector<int> s;
      for (int i = 0; i < n; ++i)
        if (m >> i & 1) s.push_back(i);
      out.push_back(s);
    }
    // In random order, so that what is remembered between calls varies.
    for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[g.in(0, i - 1)]);
  } else {
    for (int k = 0; k < 12; ++k) {
      int size = g.chance(60) ? g.in(std::max(0, t - 1), t + 1) : g.in(0, n);
      size = std::min(size, n);
      std::vector<int> all(n);
      for (int i = 0; i < n; ++i) all[i] = i;
      for (int i = n; i > 1; --i) std::swap(all[i - 1], all[g.in(0, i - 1)]);
      all.resize(size);
      std::sort(all.begin(), all.end());
      out.push_back(all);
    }
  }
  return out;
}

void TryAll(Rng& g, ShamirSecretSharing* s, const std::vector<ShamirShare>& shares, int t,
            int len, bool keys) {
  int n = shares.size();
  for (const auto& set : Subsets(g, n, t)) {
    std::vector<ShamirShare> part(n);
    for (int i : set) part[i] = shares[i];
    auto r = s->Reconstruct(t, part, len);
    (*tr)(Ev("recon").il("set", set).b("ok", r.ok()).il("secret", Bytes(r.ok() ? r.value() : "")));
    if (keys) {
      auto k = AesKey::CreateFromShares(part, t);
      (*tr)(Ev("key").il("set", set).b("ok", k.ok()).il(
          "key", k.ok() ? Bytes(std::string(reinterpret_cast<const char*>(k.value().data()), k.value().size()))
                        : std::vector<int>()));
    }
  }
}

void Sharing(Rng& g, ShamirSecretSharing* s) {
  int n = g.chance(70) ? g.in(2, 5) : g.in(6, 40);
  int t = g.in(2, n);
  int kind = g.in(0, 2);
  int len = kind == 0 ? 32 : kind == 1 ? g.in(16, 17) : g.in(1, 40);
  std::string secret = RandomSecret(g, len);
  if (len == 17) secret[0] = 0;  // a 16-byte number with a sign byte
  auto shares = s->Share(t, n, secret);
  (*tr)(Ev("share").i("n", n).i("t", t).i("num", shares.size()).il("secret", Bytes(secret)));
  TryAll(g, s, shares, t, len, kind != 2);
}

// Shares lying on a chosen line, so that the terms of the reconstruction sum
// are close to the size of the field.
using u128 = unsigned __int128;
constexpr uint64_t kP = 2147483659ull;
uint64_t Mul(uint64_t a, uint64_t b) { return static_cast<uint64_t>(u128(a) * b % kP); }
uint64_t Inv(uint64_t a) {
  uint64_t r = 1, e = kP - 2;
  for (; e; e >>= 1, a = Mul(a, a))
    if (e & 1) r = Mul(r, a);
  return r;
}

void Crafted(Rng& g, ShamirSecretSharing* s) {
  int n = g.in(2, 5);
  int a = g.in(1, n - 1), b = g.in(a + 1, n);
  uint64_t la = Mul(b, Inv(b - a)), lb = Mul(kP - a, Inv(b - a));
  // 31-bit secrets close to the top of their range.
  uint64_t want = g.in(2147483637ll, 2147483647ll);
  uint64_t u = g.in(want + 1, kP - 1), v = want + kP - u;
  if (v >= kP) return;
  uint64_t fa = Mul(u, Inv(la)), fb = Mul(v, Inv(lb));
  uint64_t slope = Mul((fb + kP - fa) % kP, Inv(b - a));
  uint64_t c0 = (fa + kP - Mul(slope, a)) % kP;
  if (c0 != want) exit(3);
  // One subsecret of 31 bits fills three bytes and seven bits; use 3-byte values only if they fit.
  int words = 9;  // 32 bytes need 9 subsecrets, the first holding 8 bits
  std::vector<uint64_t> sub(words);
  std::vector<uint64_t> slopes(words);
  for (int w = 0; w < words; ++w) {
    sub[w] = w == 0 ? g.in(0, 255) : g.in(0, 2147483647ll);
    slopes[w] = g.in(0, kP - 1);
  }
  int at = g.in(1, words - 1);
  sub[at] = c0;
  slopes[at] = slope;
  std::vector<ShamirShare> shares(n);
  for (int i = 0; i < n; ++i)
    for (int w = 0; w < words; ++w) {
      uint64_t y = (sub[w] + Mul(slopes[w], i + 1)) % kP;
      for (int k = 3; k >= 0; --k) shares[i].data += static_cast<char>(y >> (8 * k) & 0xff);
    }
  // The secret is the concatenation of the subsecrets' bits, 31 each, from the end.
  std::string bits;
  for (int w = 0; w < words; ++w)
    for (int k = 30; k >= 0; --k) bits += (sub[w] >> k & 1) ? '1' : '0';
  bits = bits.substr(bits.size() - 256);
  std::string secret;
  for (int i = 0; i < 256; i += 8) {
    int c = 0;
    for (int k = 0; k < 8; ++k) c = c * 2 + (bits[i + k] == '1');
    secret += static_cast<char>(c);
  }
  (*tr)(Ev("share").i("n", n).i("t", 2).i("num", n).il("secret", Bytes(secret)));
  TryAll(g, s, shares, 2, 32, true);
}

std::string Matrix(int n, std::function<std::string(int, int)> f) {
  std::string r = "[";
  for (int i = 0; i < n; ++i) {
    r += i ? ",[" : "[";
    for (int j = 0; j < n; ++j) r += (j ? "," : "") + f(i, j);
    r += "]";
  }
  return r + "]";
}

void Graph(Rng& g) {
  std::unique_ptr<SecretSharingGraph> graph;
  int n = g.in(1, 13), d, t;
  if (g.chance(25)) {
    d = n;
    t = g.in(1, n);
    graph = SecretSharingGraphFactory::CreateCompleteGraph(n, t);
  } else {
    d = g.in(0, (n - 1) / 2) * 2 + 1;
    t = g.in(1, d);
    graph = SecretSharingGraphFactory::CreateHararyGraph(n, d, t, g.chance(80));
  }
  std::string nb = "[";
  for (int i = 0; i < n; ++i) {
    nb += i ? ",[" : "[";
    for (int k = 0; k < graph->GetDegree(); ++k) nb += (k ? "," : "") + std::to_string(graph->GetNeighbor(i, k));
    nb += "]";
  }
  nb += "]";
  auto B = [](bool b) { return std::string(b ? "true" : "false"); };
  (*tr)(Ev("graph")
            .i("n", n).i("d", d).i("t", t)
            .i("rn", graph->GetNumNodes()).i("rd", graph->GetDegree()).i("rt", graph->GetThreshold())
            .raw("nb", nb)
            .raw("idx", Matrix(n, [&](int i, int j) { return std::to_string(graph->GetNeighborIndex(i, j).value_or(-1)); }))
            .raw("adj", Matrix(n, [&](int i, int j) { return B(graph->AreNeighbors(i, j)); }))
            .raw("out", Matrix(n, [&](int i, int j) { return B(graph->IsOutgoingNeighbor(i, j)); })));
}

}  // namespace

int main(int argc, char** argv) {
  tr = new verif::Trace(argv[1]);
  uint64_t seed = atoll(argv[2]);
  int runs = atoi(argv[3]);
  for (int r = 0; r < runs; ++r) {
    Rng g(seed * 100003 + r);
    (*tr)(Ev("reset"));
    ShamirSecretSharing s;  // several secrets per object
    int k = g.in(1, 3);
    for (int i = 0; i < k; ++i) {
      if (g.chance(25)) Crafted(g, &s); else Sharing(g, &s);
    }
    Graph(g);
  }
  tr->flush();
  return 0;
}
