// Drives the attestation verifier, and the writing and reading of attestation records in logs.
// usage: d_attest <trace> <seed> <runs> <mode: verify|log>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
#include "fcp/client/attestation/extract_attestation_records.h"
#include "fcp/client/attestation/log_attestation_records.h"
#include "fcp/client/attestation/oak_rust_attestation_verifier.h"
#include "fcp/client/rust/oak_attestation_verification_ffi.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "harness.h"
#include "openssl/sha.h"

using fcp::client::attestation::ExtractRecords;
using fcp::client::attestation::OakRustAttestationVerifier;
using fcp::client::attestation::Record;
using fcp::confidential_compute::EcdsaP256R1Signer;
using fcp::confidential_compute::OkpCwt;
using fcp::confidential_compute::OkpKey;
using fcp::confidentialcompute::AttestationVerificationRecord;
using fcp::confidentialcompute::DataAccessPolicy;
using google::internal::federatedcompute::v1::ConfidentialEncryptionConfig;
using oak::attestation::v1::AttestationResults;
using oak::attestation::v1::Endorsements;
using oak::attestation::v1::Evidence;
using oak::attestation::v1::ReferenceValues;
using verif::CodeName;
using verif::Ev;
using verif::Rng;

namespace {

std::string Bytes(Rng& r, size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = static_cast<char>(r.u64());
  return s;
}
std::string Digest(absl::string_view s) {
  std::string d(SHA256_DIGEST_LENGTH, 0);
  SHA256(reinterpret_cast<const uint8_t*>(s.data()), s.size(), reinterpret_cast<uint8_t*>(d.data()));
  return absl::BytesToHexString(d);
}
std::string Name(absl::string_view s) { return Digest(s).substr(0, 16); }

// What the evidence is worth is decided by a stand-in.
std::function<absl::StatusOr<AttestationResults>(absl::Time, const Evidence&, const Endorsements&, const ReferenceValues&)> oracle;

DataAccessPolicy Policy(Rng& r) {
  DataAccessPolicy p;
  for (int i = r.in(0, 3); i > 0; --i) {
    auto* t = p.add_transforms();
    t->set_src(r.in(0, 4));
    t->mutable_application()->set_tag(absl::StrCat("app", r.in(0, 99)));
  }
  return p;
}

void Verify(Rng& r, verif::Trace& log) {
  std::vector<EcdsaP256R1Signer> signers;
  for (int i = 0; i < 2; ++i) signers.push_back(EcdsaP256R1Signer::Create());
  // Policies: several serializations that may mean the same.
  std::vector<std::string> policies;
  for (int i = r.in(1, 3); i > 0; --i) {
    std::string p = Policy(r).SerializeAsString();
    policies.push_back(p);
    if (r.chance(50)) policies.push_back(p + std::string("\x82\x7d\x01x", 4));  // a field not known
    if (r.chance(40)) policies.push_back(std::string("\x82\x7d\x01x", 4) + p);  // and not where it would be written
    if (r.chance(30)) policies.push_back(p + p);                               // merges with itself
  }
  policies.push_back(std::string("\x0a\x7f!", 3));                             // not a policy
  absl::flat_hash_set<std::string> allowed;
  std::vector<std::string> names;
  for (const auto& p : policies) {
    switch (r.in(0, 4)) {
      case 0:
      case 1: allowed.insert(Digest(p)); names.push_back(Name(p)); break;
      case 2: allowed.insert(absl::AsciiStrToUpper(Digest(p)) + "x"); break;
      case 3: allowed.insert(Digest(p).substr(0, 62)); break;
      default: break;
    }
  }
  if (r.chance(30)) allowed.insert("");
  ReferenceValues refs;
  refs.set_data(Bytes(r, r.in(0, 9)));
  log(Ev("new").s("refs", Name(refs.data())).sl("allow", names));

  OakRustAttestationVerifier verifier(refs, allowed, [&](const AttestationVerificationRecord& rec) {
    log(Ev("record").s("ev", Name(rec.attestation_evidence().data())).s("en", Name(rec.attestation_endorsements().data()))
            .s("means", Name(rec.data_access_policy().SerializeAsString())));
  });
  for (int n = r.in(1, 5); n > 0; --n) {
    bool mostly = r.chance(75);  // most things are as they should be
    auto good = [&] { return r.chance(mostly ? 90 : 60); };
    ConfidentialEncryptionConfig cfg;
    cfg.mutable_attestation_evidence()->set_data(Bytes(r, r.in(0, 9)));
    cfg.mutable_attestation_endorsements()->set_data(Bytes(r, r.in(0, 9)));
    std::string policy = r.pick(policies);
    if (good() && !names.empty())
      for (int i = 0; i < 9 && !allowed.contains(Digest(policy)); ++i) policy = r.pick(policies);
    DataAccessPolicy parsed;
    bool parses = parsed.ParseFromString(policy);

    // The token of the server.
    int by = r.in(1, 2);
    OkpCwt cwt;
    if (good()) cwt.algorithm = -7;
    else if (r.chance(60)) cwt.algorithm = r.pick(std::vector<int64_t>{-35, -8, 7, 0, -257});
    if (r.chance(50)) cwt.issued_at = absl::FromUnixSeconds(r.in(0, 2000000000));
    if (r.chance(50)) cwt.expiration_time = absl::Now() + absl::Hours(r.in(1, 1000));
    bool has = good();
    if (has) {
      cwt.public_key = OkpKey();
      cwt.public_key->x = Bytes(r, r.in(1, 32));
      if (r.chance(70)) cwt.public_key->key_id = Bytes(r, r.in(1, 8));
      if (r.chance(70)) cwt.public_key->algorithm = -65537;
      if (r.chance(70)) cwt.public_key->curve = 4;
    }
    std::string aad = good() ? "" : "aad";
    std::string over = *cwt.BuildSigStructureForSigning(aad);
    cwt.signature = signers[by - 1].Sign(over);
    bool decodes = true, genuine = aad.empty();
    std::string token;
    if (good()) {
      token = *cwt.Encode();
    } else {
      switch (r.in(0, 8)) {
        case 0: cwt.signature[r.in(0, cwt.signature.size() - 1)] ^= 1 << r.in(0, 7); genuine = false; break;
        case 1: cwt.signature.resize(r.chance(40) ? 0 : r.in(0, 63)); genuine = false; break;
        case 2: cwt.signature += Bytes(r, r.in(1, 64)); genuine = false; break;
        case 3: cwt.issued_at = absl::FromUnixSeconds(2000000001); genuine = false; break;
        case 4: if (has) { cwt.public_key->x[0] ^= 1; genuine = false; } break;
        case 5: cwt.algorithm = cwt.algorithm == -7 ? -8 : -7; genuine = false; break;
        case 6: has = true; cwt.public_key = OkpKey(); cwt.public_key->x = Bytes(r, 33); genuine = false; break;
        default: break;
      }
      token = *cwt.Encode();
      if (r.chance(20)) { token.resize(r.in(0, token.size() - 1)); decodes = false; }
      else if (r.chance(10)) { token += Bytes(r, r.in(1, 3)); decodes = false; }
    }
    cfg.set_public_key(token);

    // The answer about the evidence.
    std::string answer = good() ? "ok" : r.pick(std::vector<std::string>{"error", "failure", "none"});
    int key = good() ? by : r.in(0, 2);
    bool asked = false;
    oracle = [&](absl::Time now, const Evidence& e, const Endorsements& d, const ReferenceValues& v) -> absl::StatusOr<AttestationResults> {
      asked = true;
      log(Ev("ask").s("ev", Name(e.data())).s("en", Name(d.data())).s("refs", Name(v.data()))
              .b("now", absl::AbsDuration(absl::Now() - now) < absl::Minutes(5)));
      if (answer == "error") return absl::InvalidArgumentError("malformed evidence");
      AttestationResults res;
      res.set_status(answer == "ok" ? AttestationResults::STATUS_SUCCESS
                     : answer == "failure" ? AttestationResults::STATUS_GENERIC_FAILURE : AttestationResults::STATUS_UNSPECIFIED);
      if (answer != "ok") res.set_reason("no match");
      // A failing verification may say more than is needed, and the evidence holds another key.
      res.set_signing_public_key(key ? signers[key - 1].GetPublicKey() : Bytes(r, r.pick(std::vector<int>{0, 1, 64, 65})));
      res.set_encryption_public_key(signers[(key + 1) % 2].GetPublicKey());
      return res;
    };
    auto keyname = [](const OkpKey& k) {
      auto opt = [](const std::optional<int64_t>& o) { return o ? absl::StrCat(*o) : std::string("-"); };
      return absl::StrCat(absl::BytesToHexString(k.x), "/", absl::BytesToHexString(k.key_id), "/", opt(k.algorithm), "/", opt(k.curve));
    };
    log(Ev("verify").s("ev", Name(cfg.attestation_evidence().data())).s("en", Name(cfg.attestation_endorsements().data()))
            .s("policy", Name(policy)).b("parses", parses).s("means", Name(parsed.SerializeAsString())).s("answer", answer).i("key", key)
            .b("decodes", decodes).s("alg", cwt.algorithm ? absl::StrCat(*cwt.algorithm) : "none").b("has", has)
            .s("holds", has ? keyname(*cwt.public_key) : "").i("by", genuine ? by : 0));
    auto res = verifier.Verify(absl::Cord(policy), cfg);
    log(Ev("result").s("st", CodeName(res.status())).s("key", res.ok() ? keyname(*res) : ""));
  }
}

// ---- logs ---------------------------------------------------------------------------------------

AttestationVerificationRecord SomeRecord(Rng& r) {
  AttestationVerificationRecord rec;
  int n = r.pick(std::vector<int>{0, 1, 20, 95, 110, 120, 250, 260, 400, 2000, 6000});
  rec.mutable_attestation_evidence()->set_data(n < 300 ? Bytes(r, n + r.in(0, 12)) : Bytes(r, r.in(300, n)));
  if (r.chance(50)) rec.mutable_attestation_endorsements()->set_data(std::string(r.in(0, 3000), 'e'));
  if (r.chance(50)) *rec.mutable_data_access_policy() = Policy(r);
  return rec;
}

struct Line { std::string text; int rec; int part; int of; };  // part 0: ends a record; rec 0: something else

std::string Prefix(Rng& r) {
  static const char* k[] = {"", "I ", "07-01 12:34:56.789  1234  5678 D ", "file.cc:12] ", "\t"};
  return k[r.in(0, 4)];
}
Line Noise(Rng& r) {
  static const char* k[] = {"", "something else", "<html> not ours", "fcp.attest: plain words", "W other: <AAAA>", "fcp.attest", "<", "fcp.attest >",
                            "other.attest: <>", "fcp.attes: <abcd>"};
  return {absl::StrCat(Prefix(r), k[r.in(0, 9)]), 0, 0, 0};
}

void Log(Rng& r, verif::Trace& log) {
  std::vector<std::string> data;
  std::vector<std::vector<Line>> blocks;
  for (int n = r.in(0, 4); n > 0; --n) {
    if (!data.empty() && r.chance(15)) {  // the same once more
      AttestationVerificationRecord rec;
      rec.ParseFromString(data.back());
      data.push_back(data.back());
    } else {
      data.push_back(SomeRecord(r).SerializeAsString());
    }
    AttestationVerificationRecord rec;
    if (!rec.ParseFromString(data.back())) exit(3);
    std::vector<Line> block;
    std::string prefix = Prefix(r), all;
    bool old = r.chance(20), ordered = true;
    size_t fits = r.chance(50) ? 3900 : r.in(203, 3900);
    std::vector<std::pair<std::string, bool>> said;
    fcp::client::attestation::internal::LogSerializedVerificationRecordWith(
        rec, [&](absl::string_view s, bool bracket) { said.push_back({std::string(s), bracket}); });
    int parts = 0;
    size_t longest = 0;
    for (size_t i = 0; i < said.size(); ++i) {
      if (!said[i].second) continue;
      if (!said[i].first.empty()) { ++parts; all += said[i].first; longest = std::max(longest, said[i].first.size()); }
      ordered = ordered && (said[i].first.empty() == (i + 1 == said.size()));
    }
    bool plain = all.find_first_of("<>\n\r") == std::string::npos;
    log(Ev("logged").i("rec", data.size()).s("digest", Digest(data.back())).i("parts", parts).b("ordered", ordered)
            .b("short", longest <= 3900).b("plain", plain));
    int part = 0;
    size_t at = 0;
    for (auto& [s, bracket] : said) {
      std::string t = absl::StrCat(prefix, "fcp.attest: ");
      if (!bracket) { block.push_back({t + s, 0, 0, 0}); continue; }
      if (s.empty()) { block.push_back({t + "<>", static_cast<int>(data.size()), 0, parts}); continue; }
      std::string body = absl::StrCat("<", s, ">");
      if (old) {  // earlier versions repeated all that followed, as far as it fitted
        body = absl::StrCat("<", all.substr(at), ">");
        if (body.size() > fits) body.resize(fits);
      }
      at += s.size();
      block.push_back({t + body, static_cast<int>(data.size()), ++part, parts});
    }
    blocks.push_back(std::move(block));
  }
  // One log: noise between the lines, lines lost, doubled or exchanged, two writers at once.
  std::vector<Line> lines;
  bool clean = r.chance(50), mixed = !clean && r.chance(20);
  if (mixed) {
    std::vector<size_t> next(blocks.size(), 0);
    for (;;) {
      std::vector<int> live;
      for (size_t b = 0; b < blocks.size(); ++b) if (next[b] < blocks[b].size()) live.push_back(b);
      if (live.empty()) break;
      int b = r.pick(live);
      for (int k = r.in(1, 8); k > 0 && next[b] < blocks[b].size(); --k) lines.push_back(blocks[b][next[b]++]);
    }
  } else {
    for (auto& b : blocks) for (auto& l : b) lines.push_back(l);
  }
  std::vector<Line> out;
  int noisy = r.pick(std::vector<int>{0, 0, 10, 50});
  int drop = clean ? 0 : r.pick(std::vector<int>{0, 2, 10}), twice = clean ? 0 : r.pick(std::vector<int>{0, 0, 5});
  bool noend = !clean && r.chance(10);
  for (auto& l : lines) {
    while (r.chance(noisy)) out.push_back(Noise(r));
    if (r.chance(drop)) continue;
    if (noend && l.rec && !l.part && r.chance(50)) continue;
    out.push_back(l);
    if (r.chance(twice)) out.push_back(l);
  }
  if (!clean && out.size() > 1 && r.chance(20)) { size_t i = r.in(0, out.size() - 2); std::swap(out[i], out[i + 1]); }
  if (!clean && r.chance(20)) out.resize(r.in(0, out.size()));
  std::string text;
  bool crlf = r.chance(10), last = r.chance(80);
  for (size_t i = 0; i < out.size(); ++i) {
    text += out[i].text;
    if (i + 1 < out.size() || last) text += crlf ? "\r\n" : "\n";
    log(Ev("line").i("rec", out[i].rec).i("part", out[i].part).i("of", out[i].of));
  }
  std::istringstream in(text);
  log(Ev("extract"));
  int n = ExtractRecords(in, [&](const Record& rec) {
    std::string d(rec.decompressed_record);
    log(Ev("found").s("digest", rec.digest).s("real", Digest(d)).i("first", rec.start_line).i("last", rec.end_line));
  });
  log(Ev("done").i("n", n));
}

}  // namespace

namespace fcp::client::rust::oak_attestation_verification_ffi {
absl::StatusOr<AttestationResults> VerifyAttestation(absl::Time now, const Evidence& evidence, const Endorsements& endorsements,
                                                     const ReferenceValues& reference_values) {
  return oracle(now, evidence, endorsements, reference_values);
}
}  // namespace fcp::client::rust::oak_attestation_verification_ffi

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  verif::Trace log(argv[1]);
  Rng rng(std::stoull(argv[2]));
  int runs = std::stoi(argv[3]);
  std::string mode = argv[4];
  for (int i = 0; i < runs; ++i) {
    log(Ev("reset").i("run", i));
    if (mode == "verify") Verify(rng, log);
    else if (mode == "log") Log(rng, log);
    else return 3;
  }
  return 0;
}
