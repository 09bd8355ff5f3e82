// Drives sealing and opening of messages, the payload encoding, COSE structures and signatures.
// usage: d_seal <trace> <seed> <runs> <mode: envelope|codec|cose>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/strings/escaping.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "fcp/client/attestation/attestation_verifier.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/aggregation_client_payload.pb.h"
#include "harness.h"
#include "libcppbor/include/cppbor/cppbor.h"
#include "libcppbor/include/cppbor/cppbor_parse.h"
#include "openssl/hpke.h"

using namespace fcp::confidential_compute;
using fcp::confidentialcompute::AggregationClientPayloadHeader;
using google::internal::federatedcompute::v1::ConfidentialEncryptionConfig;
using verif::CodeName;
using verif::Ev;
using verif::Rng;

namespace {

std::string Hex(absl::string_view s) { return absl::BytesToHexString(s); }
// A name for a byte string of any length.
std::string Name(absl::string_view s) {
  if (s.size() <= 12) return Hex(s);
  return absl::StrCat(s.size(), ":", std::hash<std::string>()(std::string(s)));
}
std::string Bytes(Rng& r, size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = static_cast<char>(r.u64());
  return s;
}
size_t Length(Rng& r) {
  switch (r.in(0, 5)) {
    case 0: return 0;
    case 1: return r.in(1, 3);
    case 2: return r.in(10, 140);
    case 3: return r.pick(std::vector<int>{15, 16, 17, 127, 128, 129, 255, 256, 257});
    case 4: return r.pick(std::vector<int>{16383, 16384, 16385, 65535, 65536});
    default: return r.in(4, 60);
  }
}
std::string J(const std::string& s) { return Ev::Quote(s); }

// Alters a byte string in one of several ways; the result differs from the original.
std::string Alter(Rng& r, const std::string& s) {
  std::string t = s;
  switch (r.in(0, 4)) {
    case 0: if (!t.empty()) { t[r.in(0, t.size() - 1)] ^= 1 << r.in(0, 7); return t; } break;
    case 1: if (!t.empty()) { t.resize(r.in(0, t.size() - 1)); return t; } break;
    case 2: if (t.size() > 1) { t.erase(r.in(0, t.size() - 1), 1); if (t != s) return t; t = s; } break;
    case 3: if (!t.empty()) { t.back() ^= 0x80; return t; } break;
    default: break;
  }
  return t + Bytes(r, r.in(1, 20));
}

// ---- envelopes ------------------------------------------------------------------------

struct Piece {  // a byte string that belongs to something made before, perhaps altered
  std::string bytes;
  int of = 0;
  bool alt = false;
  std::string str() const { return absl::StrCat("{\"of\":", of, ",\"alt\":", alt ? "true" : "false", "}"); }
};

struct Recipient {
  std::unique_ptr<MessageDecryptor> dec;  // either a decryptor
  std::unique_ptr<bssl::ScopedEVP_HPKE_KEY> key;  // or an intermediary that rewraps
  std::string token, x;
};
struct Seal { std::string ct, aad, msg; };
struct Wrap { std::string esk, enc, aad; int to, seal; };

void Envelope(Rng& rng, verif::Trace& tr) {
  std::vector<Recipient> rs;
  std::vector<Seal> seals;
  std::vector<Wrap> wraps;
  struct Sig { std::string bytes, data; };
  std::vector<std::unique_ptr<EcdsaP256R1Signer>> signers;
  std::vector<Sig> sigs;
  std::vector<std::string> aads{"", "a", Bytes(rng, 5), Bytes(rng, Length(rng))};
  aads.push_back(Alter(rng, aads[3]));
  MessageEncryptor enc;

  auto token = [&](int d) {  // a (new) public key of recipient d
    Recipient& r = rs[d - 1];
    std::string sig = Bytes(rng, rng.in(0, 70));
    int64_t alg = rng.pick(std::vector<int64_t>{-7, 1, 0, INT64_MAX, INT64_MIN + 1, -65537});
    bool fails = rng.chance(10);
    std::string signedover;
    auto st = r.dec->GetPublicKey(
        [&](absl::string_view data) -> absl::StatusOr<std::string> {
          signedover = std::string(data);
          if (fails) return absl::PermissionDeniedError("signer");
          return sig;
        },
        alg);
    Ev e("token");
    e.i("d", d).b("fails", fails).s("galg", absl::StrCat(alg)).s("gsig", Name(sig)).s("st", CodeName(st.status()));
    std::string out = "{\"ok\":false}";
    if (st.ok()) {
      auto cwt = OkpCwt::Decode(*st);
      auto over = OkpCwt::GetSigStructureForVerifying(*st, "");
      if (cwt.ok() && cwt->public_key) {
        auto opt = [](auto& o) { return o ? absl::StrCat(*o) : std::string("none"); };
        r.x = cwt->public_key->x;
        out = absl::StrCat("{\"ok\":true,\"alg\":", J(opt(cwt->algorithm)), ",\"sig\":", J(Name(cwt->signature)),
                           ",\"kalg\":", J(opt(cwt->public_key->algorithm)), ",\"crv\":", J(opt(cwt->public_key->curve)),
                           ",\"x\":", J(Hex(r.x)), ",\"over\":", over.ok() && *over == signedover ? "true" : "false", "}");
      }
      r.token = *st;
    }
    tr.Add(e.raw("out", out));
  };
  auto recipient = [&]() {
    Recipient r;
    bool mid = rng.chance(30);
    if (mid) {
      r.key = std::make_unique<bssl::ScopedEVP_HPKE_KEY>();
      if (EVP_HPKE_KEY_generate(r.key->get(), EVP_hpke_x25519_hkdf_sha256()) != 1) exit(3);
      std::string x(EVP_HPKE_MAX_PUBLIC_KEY_LENGTH, 0);
      size_t n = 0;
      if (EVP_HPKE_KEY_public_key(r.key->get(), reinterpret_cast<uint8_t*>(x.data()), &n, x.size()) != 1) exit(3);
      x.resize(n);
      r.x = x;
      OkpCwt cwt{.public_key = OkpKey{.key_id = "mid", .algorithm = crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm,
                                      .curve = crypto_internal::kX25519, .x = x}};
      r.token = *cwt.Encode();
    } else {
      google::protobuf::Struct cfg;
      if (rng.chance(50)) (*cfg.mutable_fields())["k"].set_number_value(rng.in(0, 9));
      r.dec = std::make_unique<MessageDecryptor>(cfg);
    }
    rs.push_back(std::move(r));
    tr.Add(Ev("recipient").i("d", rs.size()).b("mid", mid).s("x", Hex(rs.back().x)));
    if (!mid) token(rs.size());
  };
  auto seal = [&]() {
    int d = rng.in(1, rs.size());
    std::string tok = rs[d - 1].token, kind = "good";
    if (tok.empty()) return;
    if (rng.chance(15)) {
      OkpCwt c;
      c.public_key = OkpKey{.algorithm = crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm,
                            .curve = crypto_internal::kX25519, .x = rs[d - 1].x};
      kind = "bad";
      switch (rng.in(0, 7)) {
        case 0: c.public_key->algorithm = rng.in(-65540, 3); if (c.public_key->algorithm == -65537) kind = "good"; break;
        case 1: c.public_key->curve = rng.in(0, 8); if (c.public_key->curve == 4) kind = "good"; break;
        case 2: c.public_key->algorithm.reset(); break;
        case 3: c.public_key->curve.reset(); break;
        case 4: c.public_key.reset(); break;
        case 5: c.public_key->x.resize(rng.in(0, 31)); break;
        case 6: c.public_key->x += "z"; break;
        default: break;
      }
      tok = *c.Encode();
      if (kind == "bad" && c.public_key && c.public_key->x == rs[d - 1].x && c.public_key->algorithm == -65537 &&
          c.public_key->curve == 4) {
        tok = rng.chance(50) ? tok.substr(0, rng.in(0, tok.size() - 1)) : tok + "x";
      }
    }
    std::string msg = Bytes(rng, Length(rng)), aad = rng.pick(aads);
    auto r = enc.Encrypt(msg, tok, aad);
    Ev e("seal");
    e.i("c", seals.size() + 1).i("w", wraps.size() + 1).i("d", d).s("tok", kind).s("aad", Name(aad)).s("m", Name(msg));
    if (r.ok()) {
      seals.push_back({r->ciphertext, aad, msg});
      wraps.push_back({r->encrypted_symmetric_key, r->encapped_key, aad, d, static_cast<int>(seals.size())});
    }
    tr.Add(e.s("st", CodeName(r.status())));
  };
  auto part = [&](int n, const std::function<std::string(int)>& get, int of, int wrong, int alt) {
    Piece p;
    p.of = rng.chance(wrong) ? rng.in(1, n) : of;
    p.bytes = get(p.of);
    if (rng.chance(alt)) p.alt = true, p.bytes = Alter(rng, p.bytes);
    return p;
  };
  auto esk = [&](int w, int wrong, int alt) { return part(wraps.size(), [&](int i) { return wraps[i - 1].esk; }, w, wrong, alt); };
  auto encd = [&](int w, int wrong, int alt) { return part(wraps.size(), [&](int i) { return wraps[i - 1].enc; }, w, wrong, alt); };
  auto aadof = [&](const std::string& a, int wrong) {
    return !rng.chance(wrong) ? a : rng.chance(50) ? rng.pick(aads) : Alter(rng, a);
  };
  auto open = [&]() {
    if (wraps.empty()) return;
    int w = rng.in(1, wraps.size());
    // In half of the trials at most one thing is wrong.
    int wrong[7] = {0, 0, 0, 0, 0, 0, 0};
    if (rng.chance(50)) { if (rng.chance(70)) wrong[rng.in(0, 6)] = 100; } else for (int& x : wrong) x = 15;
    Piece k = esk(w, wrong[0] / 2, wrong[0]), n = encd(w, wrong[1] / 2, wrong[1]);
    Piece c = part(seals.size(), [&](int i) { return seals[i - 1].ct; }, wraps[w - 1].seal, wrong[2], wrong[3]);
    std::string kaad = aadof(wraps[w - 1].aad, wrong[4]), aad = aadof(seals[wraps[w - 1].seal - 1].aad, wrong[5]);
    int d = rng.chance(wrong[6]) ? rng.in(1, rs.size()) : wraps[w - 1].to;
    if (!rs[d - 1].dec) return;
    auto r = rs[d - 1].dec->Decrypt(c.bytes, aad, k.bytes, kaad, n.bytes);
    tr.Add(Ev("open").i("d", d).raw("ct", c.str()).raw("esk", k.str()).raw("enc", n.str()).s("aad", Name(aad))
               .s("kaad", Name(kaad)).s("st", CodeName(r.status())).s("m", r.ok() ? Name(*r) : ""));
  };
  auto rewrap = [&]() {
    std::vector<int> mids;
    for (size_t i = 0; i < wraps.size(); ++i) if (rs[wraps[i].to - 1].key) mids.push_back(i + 1);
    if (mids.empty()) return;
    int w = rng.pick(mids);
    Piece k = esk(w, 10, 10), n = encd(w, 10, 10);
    std::string kaad = aadof(wraps[w - 1].aad, 10);
    int by = wraps[w - 1].to, to = rng.in(1, rs.size());
    if (rs[to - 1].x.empty()) return;
    std::string aad = rng.pick(aads);
    auto sym = crypto_internal::UnwrapSymmetricKey(rs[by - 1].key->get(), EVP_hpke_hkdf_sha256(), EVP_hpke_aes_128_gcm(),
                                                   k.bytes, n.bytes, kaad);
    absl::Status st = sym.status();
    int made = wraps.size() + 1;
    if (st.ok()) {
      auto r = crypto_internal::WrapSymmetricKey(EVP_hpke_x25519_hkdf_sha256(), EVP_hpke_hkdf_sha256(),
                                                 EVP_hpke_aes_128_gcm(), *sym, rs[to - 1].x, aad);
      st = r.status();
      if (st.ok()) wraps.push_back({r->encrypted_symmetric_key, r->encapped_key, aad, to, wraps[w - 1].seal});
    }
    tr.Add(Ev("rewrap").i("by", by).i("to", to).raw("esk", k.str()).raw("enc", n.str()).s("kaad", Name(kaad)).i("w", made)
               .s("aad", Name(aad)).s("st", CodeName(st)));
  };
  // A whole payload on its way: encoded, perhaps damaged, decoded, opened.
  auto deliver = [&]() {
    if (wraps.empty()) return;
    const Wrap w = wraps[rng.in(1, wraps.size()) - 1];
    const Seal c = seals[w.seal - 1];
    if (!rs[w.to - 1].dec || c.aad != w.aad) return;
    bool gz = rng.chance(50), alt = rng.chance(60);
    std::string p = EncodeClientPayload({w.esk, w.enc, c.aad, gz}, c.ct);
    if (alt) {
      if (rng.chance(50)) {
        p = Alter(rng, p);
      } else {  // towards the front, where the structure is
        size_t at = rng.in(0, std::min<size_t>(p.size() - 1, 40));
        p[at] ^= 1 << rng.in(0, 7);
      }
    }
    absl::string_view rest = p;
    auto h = DecodeAndConsumeClientPayloadHeader(rest);
    std::string st = CodeName(h.status()), m;
    if (h.ok()) {
      auto r = rs[w.to - 1].dec->Decrypt(rest, h->serialized_blob_header, h->encrypted_symmetric_key, h->serialized_blob_header,
                                         h->encapsulated_public_key);
      st = CodeName(r.status());
      if (r.ok()) m = Name(*r);
    }
    tr.Add(Ev("deliver").i("c", w.seal).b("alt", alt).s("st", st).s("m", m));
  };
  auto sign = [&]() {
    if (signers.size() < 2) signers.push_back(std::make_unique<EcdsaP256R1Signer>(EcdsaP256R1Signer::Create()));
    int k = rng.in(1, signers.size());
    std::string data = rng.chance(50) && !sigs.empty() ? rng.pick(sigs).data : Bytes(rng, Length(rng));
    sigs.push_back({signers[k - 1]->Sign(data), data});
    tr.Add(Ev("sign").i("g", sigs.size()).i("k", k).s("m", Name(data)).i("len", sigs.back().bytes.size()));
  };
  auto verify = [&]() {
    if (sigs.empty()) return;
    int g = rng.in(1, sigs.size()), k = rng.in(1, signers.size());
    Piece p{sigs[g - 1].bytes, g, false};
    if (rng.chance(40)) p.alt = true, p.bytes = Alter(rng, p.bytes);
    std::string data = rng.chance(60) ? sigs[g - 1].data : rng.chance(50) ? Alter(rng, sigs[g - 1].data) : rng.pick(sigs).data;
    std::string key = signers[k - 1]->GetPublicKey();
    bool kalt = rng.chance(15);
    if (kalt) key = Alter(rng, key);
    auto v = EcdsaP256R1SignatureVerifier::Create(key);
    auto st = v.ok() ? v->Verify(data, p.bytes) : v.status();
    tr.Add(Ev("verify").i("k", k).b("kalt", kalt).raw("sig", p.str()).s("m", Name(data)).s("st", CodeName(st)));
  };

  for (int i = 0; i < 3; ++i) recipient();
  int n = rng.in(15, 60);
  for (int i = 0; i < n; ++i) {
    switch (rng.in(0, 12)) {
      case 0: if (rs.size() < 5) recipient(); break;
      case 1: case 2: seal(); break;
      case 3: rewrap(); break;
      case 4: rewrap(); break;
      case 5: sign(); break;
      case 6: verify(); break;
      case 7: { int d = rng.in(1, rs.size()); if (rs[d - 1].dec) token(d); break; }
      case 8: deliver(); break;
      default: open();
    }
  }
}

// ---- the payload encoding -------------------------------------------------------------

std::string Varint(uint64_t v) {
  std::string s;
  while (v >= 128) s += static_cast<char>(v | 128), v >>= 7;
  return s + static_cast<char>(v);
}
std::string Field(int n, const std::string& v) { return Varint(n << 3 | 2) + Varint(v.size()) + v; }

void Codec(Rng& rng, verif::Trace& tr) {
  for (int i = 0; i < 40; ++i) {
    ClientPayloadHeader h{Bytes(rng, Length(rng)), Bytes(rng, Length(rng)), Bytes(rng, Length(rng)), rng.chance(50)};
    auto show = [](const ClientPayloadHeader& h) {
      return absl::StrCat("{\"k\":", J(Name(h.encrypted_symmetric_key)), ",\"p\":", J(Name(h.encapsulated_public_key)),
                          ",\"b\":", J(Name(h.serialized_blob_header)), ",\"gz\":", h.is_gzip_compressed ? "true" : "false", "}");
    };
    std::string tail = Bytes(rng, Length(rng));
    // How the input came about: from the encoder, or put together here.
    bool magic = true, whole = true, good = true;
    uint64_t declared = 0, have = 0;
    std::string in;
    bool ours = rng.chance(40);
    if (ours) {
      in = EncodeClientPayload(h, tail);
    } else {
      AggregationClientPayloadHeader m;
      // Fields in any order, some twice, some unknown, some missing.
      std::vector<std::string> fs;
      if (rng.chance(80)) fs.push_back(Field(AggregationClientPayloadHeader::kEncryptedSymmetricKeyFieldNumber, h.encrypted_symmetric_key));
      else h.encrypted_symmetric_key = "";
      if (rng.chance(80)) fs.push_back(Field(AggregationClientPayloadHeader::kEncapsulatedPublicKeyFieldNumber, h.encapsulated_public_key));
      else h.encapsulated_public_key = "";
      if (rng.chance(80)) fs.push_back(Field(AggregationClientPayloadHeader::kBlobHeaderFieldNumber, h.serialized_blob_header));
      else h.serialized_blob_header = "";
      if (h.is_gzip_compressed)
        fs.push_back(Varint(AggregationClientPayloadHeader::kCompressionTypeFieldNumber << 3) +
                     Varint(fcp::confidentialcompute::COMPRESSION_TYPE_GZIP));
      if (rng.chance(20)) fs.push_back(Field(rng.in(100, 3000), Bytes(rng, 4)));
      for (size_t k = 0; k + 1 < fs.size(); ++k) std::swap(fs[k], fs[rng.in(k, fs.size() - 1)]);
      if (rng.chance(15)) {  // something no message contains
        good = false;
        switch (rng.in(0, 4)) {
          case 0: fs.insert(fs.begin() + rng.in(0, fs.size()), std::string(1, '\0')); break;         // a tag of zero
          case 1: fs.insert(fs.begin() + rng.in(0, fs.size()), Varint(7 << 3 | 4)); break;            // the end of a group
          case 2: fs.push_back(Varint(1 << 3 | 2) + Varint(50) + "short"); break;                      // a field cut short
          case 3: fs.insert(fs.begin() + rng.in(0, fs.size()), std::string(1, '\x0f')); break;        // an unknown kind
          default: fs.push_back("\xff"); break;                                                        // a tag cut short
        }
      }
      std::string body = absl::StrJoin(fs, "");
      declared = body.size();
      std::string rest = body + tail;
      have = rest.size();
      std::string mg = "CAv1", len = Varint(declared);
      if (good && rng.chance(12)) {
        switch (rng.in(0, 5)) {
          case 0: mg = Alter(rng, mg.substr(0, 4)), magic = mg.substr(0, 4) == "CAv1"; if (magic) mg = "CAV1", magic = false; break;
          case 1: {  // ends inside the header
            if (body.empty()) break;
            size_t cut = rng.in(0, body.size() - 1);
            if (rng.chance(50) && fs.size() > 1) cut = fs[0].size();
            rest = body.substr(0, cut), have = cut;
            break;
          }
          case 2: declared = rng.pick(std::vector<uint64_t>{0x7fffffffull, 0x80000000ull, 0xffffffffull, 0xfffffff0ull}), len = Varint(declared); break;
          case 3: len = "\xff\xff", whole = false, rest = "", have = 0; break;
          case 4: len = "", whole = false, rest = "", have = 0; break;
          default: declared = have + rng.in(1, 5), len = Varint(declared); break;
        }
      }
      in = mg + len + rest;
      if (!magic && rng.chance(20)) in = in.substr(0, rng.in(0, 3));
    }
    absl::string_view view = in;
    auto r = DecodeAndConsumeClientPayloadHeader(view);
    bool suffix = view.empty() || (view.data() + view.size() == in.data() + in.size());
    Ev e("decode");
    e.b("ours", ours).b("magic", magic).b("whole", whole).b("good", good)
        .b("fits", ours || declared <= have).raw("h", show(h)).s("tail", Name(tail)).s("st", CodeName(r.status()));
    if (r.ok()) e.raw("out", show(*r)).s("rest", Name(view)).b("suffix", suffix);
    tr.Add(e);
  }
}

// ---- COSE structures ------------------------------------------------------------------

// A CBOR value being put together.
struct V {
  char t = 'i';  // i int, b bytes, t text, a array, m map, s simple, g tagged
  int64_t n = 0;
  std::string s;
  std::vector<V> kids;  // array items; map keys and values alternating
};
std::string Head(int major, uint64_t n) {
  std::string r;
  int bytes = n < 24 ? 0 : n <= 0xff ? 1 : n <= 0xffff ? 2 : n <= 0xffffffffull ? 4 : 8;
  r += static_cast<char>(major << 5 | (bytes == 0 ? n : bytes == 1 ? 24 : bytes == 2 ? 25 : bytes == 4 ? 26 : 27));
  for (int i = bytes - 1; i >= 0; --i) r += static_cast<char>(n >> (8 * i));
  return r;
}
std::string Cbor(const V& v) {
  std::string r;
  switch (v.t) {
    case 'i': return v.n >= 0 ? Head(0, v.n) : Head(1, -(v.n + 1));
    case 'b': return Head(2, v.s.size()) + v.s;
    case 't': return Head(3, v.s.size()) + v.s;
    case 'a': r = Head(4, v.kids.size()); break;
    case 'm': r = Head(5, v.kids.size() / 2); break;
    default: return Head(7, 20 + (v.n & 1));
  }
  for (auto& k : v.kids) r += Cbor(k);
  return r;
}
V I(int64_t n) { return V{'i', n, "", {}}; }
V B(std::string s) { return V{'b', 0, std::move(s), {}}; }
V Other(Rng& rng, char not_this) {  // some value of another kind
  for (;;) {
    char t = rng.pick(std::vector<char>{'i', 'b', 't', 'a', 'm', 's'});
    if (t == not_this) continue;
    V v{t, rng.in(-5, 5), "", {}};
    if (t == 'b' || t == 't') v.s = "xyz";
    if (t == 'a') v.kids = {I(1)};
    if (t == 'm') v.kids = {I(1), I(2)};
    if ((t == 'a' || t == 'm') && rng.chance(50)) v.kids.clear();
    return v;
  }
}

std::string Ent(const std::string& k, char t, const std::string& v) {
  return absl::StrCat("{\"k\":", J(k), ",\"t\":", J(std::string(1, t)), ",\"v\":", J(v), "}");
}
std::string Show(const V& v) { return v.t == 'i' ? absl::StrCat(v.n) : v.t == 'b' ? Name(v.s) : ""; }

// A map with some of the given keys, and a description of it.
struct Made { std::string bytes, desc; };
Made Finish(Rng& rng, std::vector<std::pair<V, V>> es, int bad) {
  for (size_t k = 0; k + 1 < es.size(); ++k) std::swap(es[k], es[rng.in(k, es.size() - 1)]);
  V m{'m', 0, "", {}};
  std::vector<std::string> d;
  for (auto& [k, v] : es) {
    m.kids.push_back(k), m.kids.push_back(v);
    d.push_back(Ent(k.t == 'i' ? absl::StrCat(k.n) : "~", v.t, Show(v)));
  }
  bool top = true, extra = false, cut = false;
  std::string bytes = Cbor(m);
  if (rng.chance(bad)) {
    switch (rng.in(0, 2)) {
      case 0: top = false, bytes = Cbor(Other(rng, 'm')); break;
      case 1: extra = true, bytes += rng.chance(50) ? std::string(1, '\0') : bytes; break;
      default: cut = true, bytes.resize(rng.in(0, bytes.size() - 1)); break;
    }
  }
  auto tf = [](bool b) { return b ? "true" : "false"; };
  return {bytes, absl::StrCat("{\"top\":", tf(top), ",\"extra\":", tf(extra), ",\"cut\":", tf(cut), ",\"ents\":[", absl::StrJoin(d, ","), "]}")};
}
void Entry(Rng& rng, std::vector<std::pair<V, V>>& es, int64_t k, V v, int present, int bad) {
  if (!rng.chance(present)) return;
  if (rng.chance(bad)) v = Other(rng, v.t);
  es.emplace_back(I(k), v);
}
int64_t Num(Rng& rng) {
  return rng.pick(std::vector<int64_t>{0, 1, -1, 4, -7, 23, 24, -24, -25, 255, 256, -65537, -65538, 65536, 1ll << 40, INT64_MAX, INT64_MIN + 1, -256});
}
void Noise(Rng& rng, std::vector<std::pair<V, V>>& es) {  // what a reader does not know
  if (rng.chance(30)) es.emplace_back(I(rng.in(100, 300)), Other(rng, '?'));
  if (rng.chance(20)) es.emplace_back(V{'t', 0, "name", {}}, Other(rng, '?'));
}
Made OkpMap(Rng& rng, int bad) {
  std::vector<std::pair<V, V>> es;
  Entry(rng, es, 1, I(rng.chance(92) ? 1 : rng.pick(std::vector<int64_t>{4, 0, -1, 2})), 97, bad);
  Entry(rng, es, 2, B(Bytes(rng, rng.in(0, 9))), 60, bad);
  Entry(rng, es, 3, I(Num(rng)), 70, bad);
  Entry(rng, es, -1, I(Num(rng)), 70, bad);
  Entry(rng, es, -2, B(Bytes(rng, rng.pick(std::vector<int>{0, 1, 32, 32, 33}))), 80, bad);
  Noise(rng, es);
  return Finish(rng, es, bad);
}
Made SymMap(Rng& rng, int bad) {
  std::vector<std::pair<V, V>> es;
  Entry(rng, es, 1, I(rng.chance(92) ? 4 : rng.pick(std::vector<int64_t>{1, 0, -4})), 97, bad);
  Entry(rng, es, 3, I(Num(rng)), 70, bad);
  Entry(rng, es, -1, B(Bytes(rng, rng.pick(std::vector<int>{0, 1, 16, 16, 32}))), 80, bad);
  Noise(rng, es);
  return Finish(rng, es, bad);
}
std::string Opt(const std::optional<int64_t>& o) { return o ? absl::StrCat(*o) : "none"; }
std::string Opt(const std::optional<absl::Time>& o) { return o ? absl::StrCat(absl::ToUnixSeconds(*o)) : "none"; }
std::string Show(const OkpKey& k) {
  return absl::StrCat("{\"kid\":", J(Name(k.key_id)), ",\"alg\":", J(Opt(k.algorithm)), ",\"crv\":", J(Opt(k.curve)), ",\"x\":", J(Name(k.x)), "}");
}
std::string Show(const SymmetricKey& k) { return absl::StrCat("{\"alg\":", J(Opt(k.algorithm)), ",\"k\":", J(Name(k.k)), "}"); }
std::string Cfg(const google::protobuf::Struct& s) {
  auto it = s.fields().find("k");
  return s.fields().empty() ? "none" : it == s.fields().end() ? "other" : absl::StrCat(it->second.number_value());
}
google::protobuf::Struct CfgOf(int n) {
  google::protobuf::Struct s;
  (*s.mutable_fields())["k"].set_number_value(n);
  return s;
}
std::string Show(const OkpCwt& c) {
  return absl::StrCat("{\"alg\":", J(Opt(c.algorithm)), ",\"exp\":", J(Opt(c.expiration_time)), ",\"iat\":", J(Opt(c.issued_at)),
                      ",\"haskey\":", c.public_key ? "true" : "false", ",\"key\":", Show(c.public_key ? *c.public_key : OkpKey()),
                      ",\"cfg\":", J(Cfg(c.config_properties)), ",\"sig\":", J(Name(c.signature)), "}");
}
// The entries of an encoded map.
std::string Entries(const std::string& bytes) {
  auto [item, end, error] = cppbor::parse(reinterpret_cast<const uint8_t*>(bytes.data()), bytes.size());
  if (!error.empty() || !item->asMap() || end != reinterpret_cast<const uint8_t*>(bytes.data()) + bytes.size()) return "[\"?\"]";
  std::vector<std::string> d;
  for (auto& [k, v] : *item->asMap()) {
    char t = v->asInt() ? 'i' : v->type() == cppbor::BSTR ? 'b' : '?';
    std::string val = t == 'i' ? absl::StrCat(v->asInt()->value())
                      : t == 'b' ? Name(std::string(v->asBstr()->value().begin(), v->asBstr()->value().end())) : "";
    d.push_back(Ent(k->asInt() ? absl::StrCat(k->asInt()->value()) : "~", t, val));
  }
  return absl::StrCat("[", absl::StrJoin(d, ","), "]");
}
// The items of an encoded array: kind and content.
std::string Items(const std::string& bytes, std::vector<std::string>* content = nullptr) {
  auto [item, end, error] = cppbor::parse(reinterpret_cast<const uint8_t*>(bytes.data()), bytes.size());
  if (!error.empty() || !item->asArray() || end != reinterpret_cast<const uint8_t*>(bytes.data()) + bytes.size()) return "[]";
  std::vector<std::string> d;
  for (auto& v : *item->asArray()) {
    std::string s;
    if (v->type() == cppbor::BSTR) s.assign(v->asBstr()->value().begin(), v->asBstr()->value().end());
    if (content) content->push_back(s);
    char t = v->type() == cppbor::BSTR ? 'b' : v->type() == cppbor::TSTR ? 't' : v->type() == cppbor::MAP ? 'm' : '?';
    d.push_back(absl::StrCat("{\"t\":", J(std::string(1, t)), ",\"v\":", J(t == 't' ? v->asTstr()->value() : Name(s)), "}"));
  }
  return absl::StrCat("[", absl::StrJoin(d, ","), "]");
}

void Cose(Rng& rng, verif::Trace& tr) {
  for (int i = 0; i < 12; ++i) {
    int bad = rng.chance(50) ? 0 : 12;
    {
      Made m = OkpMap(rng, bad);
      auto r = OkpKey::Decode(m.bytes);
      tr.Add(Ev("okp").raw("d", m.desc).s("st", CodeName(r.status())).raw("out", Show(r.ok() ? *r : OkpKey())));
    }
    {
      Made m = SymMap(rng, bad);
      auto r = SymmetricKey::Decode(m.bytes);
      tr.Add(Ev("sym").raw("d", m.desc).s("st", CodeName(r.status())).raw("out", Show(r.ok() ? *r : SymmetricKey())));
    }
    auto opt = [&](int p) { return rng.chance(p) ? std::optional<int64_t>(Num(rng)) : std::nullopt; };
    {  // encoding keys
      OkpKey k{Bytes(rng, rng.in(0, 4)), opt(70), opt(70), Bytes(rng, rng.in(0, 40))};
      SymmetricKey y{opt(70), Bytes(rng, rng.in(0, 20))};
      auto ek = k.Encode();
      auto ey = y.Encode();
      tr.Add(Ev("okpenc").raw("k", Show(k)).s("st", CodeName(ek.status())).raw("ents", ek.ok() ? Entries(*ek) : "[]"));
      tr.Add(Ev("symenc").raw("k", Show(y)).s("st", CodeName(ey.status())).raw("ents", ey.ok() ? Entries(*ey) : "[]"));
    }
    std::string aad = Bytes(rng, rng.in(0, 5));
    {  // encoding tokens
      OkpCwt c;
      c.algorithm = opt(70);
      if (rng.chance(60)) c.issued_at = absl::FromUnixSeconds(rng.in(-(1ll << 40), 1ll << 40));
      if (rng.chance(60)) c.expiration_time = absl::FromUnixSeconds(rng.in(0, 1ll << 40));
      if (rng.chance(80)) c.public_key = OkpKey{Bytes(rng, rng.in(0, 4)), opt(70), opt(70), Bytes(rng, rng.in(0, 40))};
      if (rng.chance(50)) c.config_properties = CfgOf(rng.in(0, 9));
      c.signature = Bytes(rng, rng.in(0, 70));
      auto e = c.Encode();
      auto sig = c.BuildSigStructureForSigning(aad);
      auto ver = e.ok() ? OkpCwt::GetSigStructureForVerifying(*e, aad) : e.status();
      auto back = e.ok() ? OkpCwt::Decode(*e) : e.status();
      std::vector<std::string> parts;
      std::string items = e.ok() ? Items(*e, &parts) : "[]";
      parts.resize(4);
      std::string key, cfg;
      auto [pay, end, error] = cppbor::parse(reinterpret_cast<const uint8_t*>(parts[2].data()), parts[2].size());
      tr.Add(Ev("cwtenc").raw("c", Show(c)).s("aad", Name(aad)).s("st", CodeName(e.status())).raw("items", items)
                 .raw("hdr", Entries(parts[0])).raw("pay", Entries(parts[2]))
                 .s("keyis", Name(c.public_key ? *c.public_key->Encode() : ""))
                 .s("cfgis", Name(c.config_properties.SerializeAsString()))
                 .raw("sign", sig.ok() ? Items(*sig) : "[]").raw("verify", ver.ok() ? Items(*ver) : "[]")
                 .s("back", CodeName(back.status())).raw("out", Show(back.ok() ? *back : OkpCwt())));
    }
    {  // reading tokens
      std::vector<std::pair<V, V>> hs, ps;
      Entry(rng, hs, 1, I(Num(rng)), 80, bad);
      Noise(rng, hs);
      Made hdr = Finish(rng, hs, bad);
      Entry(rng, ps, 4, I(rng.in(-(1ll << 40), 1ll << 40)), 60, bad);
      Entry(rng, ps, 6, I(rng.in(-(1ll << 40), 1ll << 40)), 60, bad);
      Made key = OkpMap(rng, bad / 2);
      Entry(rng, ps, rng.chance(50) ? -65537 : -4670552, B(key.bytes), 80, bad);
      int cfg = rng.in(0, 9);
      bool cfgbad = rng.chance(bad / 2);
      Entry(rng, ps, -65538, B(cfgbad ? "\xff" : CfgOf(cfg).SerializeAsString()), 50, bad);
      Noise(rng, ps);
      Made pay = Finish(rng, ps, bad);
      std::string sig = Bytes(rng, rng.in(0, 64));
      bool multi = rng.chance(50);
      // The items of the token; with several signatures, the header is the one of the first signature.
      V body = multi ? B(rng.chance(50) ? "anything" : Cbor(V{'m', 0, "", {}})) : B(hdr.bytes);
      V un{'m', 0, "", {}};
      if (rng.chance(30)) un.kids = {I(1), I(5)};
      V fourth = B(sig);
      int nsig = 0, n1 = 0;
      std::string t1;
      char t0 = '-';
      if (multi) {
        fourth = V{'a', 0, "", {}};
        nsig = rng.chance(5) ? 0 : rng.in(1, 3);
        for (int k = 0; k < nsig; ++k) {
          V one{'a', 0, "", {B(k == 0 ? hdr.bytes : "other"), V{'m', 0, "", {}}, B(k == 0 ? sig : "othersig")}};
          if (k == 0) {
            if (rng.chance(bad)) one.kids.resize(rng.in(0, 2));
            else if (rng.chance(bad / 3)) one.kids.push_back(B("more"));
            if (!one.kids.empty() && rng.chance(bad)) one.kids[0] = Other(rng, 'b');
            if (one.kids.size() > 1 && rng.chance(bad / 2)) one.kids[1] = Other(rng, 'm');
            if (one.kids.size() > 2 && rng.chance(bad)) one.kids[2] = Other(rng, 'b');
            if (rng.chance(bad)) one = Other(rng, 'a');
            t0 = one.t, n1 = one.kids.size();
            if (one.t == 'a') for (auto& x : one.kids) t1 += x.t;
          }
          fourth.kids.push_back(one);
        }
      } else if (rng.chance(bad)) {
        fourth = Other(rng, 'b');
        if (fourth.t == 'a' && !fourth.kids.empty()) fourth = I(3);
      }
      V top{'a', 0, "", {body, un, B(pay.bytes), fourth}};
      for (int k = 0; k < 3; ++k)
        if (rng.chance(bad / 2)) top.kids[k] = Other(rng, k == 1 ? 'm' : 'b');
      if (rng.chance(bad / 2)) top.kids.resize(rng.in(0, 3));
      else if (rng.chance(bad / 3)) top.kids.push_back(I(9));
      std::string ts;
      for (auto& x : top.kids) ts += x.t;
      std::string bytes = Cbor(top);
      bool istop = true, extra = false, cut = false;
      if (rng.chance(bad)) {
        switch (rng.in(0, 2)) {
          case 0: istop = false, bytes = Cbor(Other(rng, 'a')); break;
          case 1: extra = true, bytes += "x"; break;
          default: cut = true, bytes.resize(rng.in(0, bytes.size() - 1)); break;
        }
      }
      auto r = OkpCwt::Decode(bytes);
      auto ver = OkpCwt::GetSigStructureForVerifying(bytes, aad);
      ConfidentialEncryptionConfig config;
      config.set_public_key(bytes);
      auto att = fcp::client::attestation::AlwaysPassingAttestationVerifier().Verify(absl::Cord("policy"), config);
      auto str = [](const std::string& s) {
        std::vector<std::string> v;
        for (char c : s) v.push_back(J(std::string(1, c)));
        return absl::StrCat("[", absl::StrJoin(v, ","), "]");
      };
      tr.Add(Ev("cwt").b("top", istop).b("extra", extra).b("cut", cut).raw("t", str(ts)).i("nsig", nsig).s("t0", std::string(1, t0))
                 .raw("t1", str(t1)).raw("hdr", hdr.desc).raw("pay", pay.desc).raw("key", key.desc)
                 .s("cfg", cfgbad ? "bad" : absl::StrCat(cfg)).s("sig", Name(sig)).s("aad", Name(aad))
                 .s("body", Name(body.s)).s("hdris", Name(hdr.bytes)).s("payis", Name(pay.bytes))
                 .s("st", CodeName(r.status())).raw("out", Show(r.ok() ? *r : OkpCwt()))
                 .s("vst", CodeName(ver.status())).raw("verify", ver.ok() ? Items(*ver) : "[]")
                 .s("ast", CodeName(att.status())).raw("akey", Show(att.ok() ? *att : OkpKey())));
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  verif::Trace tr(argv[1]);
  Rng rng(std::stoull(argv[2]));
  int runs = std::stoi(argv[3]);
  std::string mode = argv[4];
  for (int i = 0; i < runs; ++i) {
    tr.Add(Ev("reset"));
    if (mode == "envelope") Envelope(rng, tr);
    else if (mode == "codec") Codec(rng, tr);
    else Cose(rng, tr);
  }
  return 0;
}
