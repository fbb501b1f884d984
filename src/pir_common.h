// Shared by the retrieval harnesses: stand-in encryption, the two ways to run a
// retrieval, and plain reference computations.
#ifndef VP_PIR_COMMON_H_
#define VP_PIR_COMMON_H_
#include <openssl/aes.h>

#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/dpf_pir_server.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "vp.h"
#include "vp_rand.h"

namespace vp {
namespace dp = distributed_point_functions;
using PlainRequest = dp::DpfPirRequest::PlainRequest;
using HelperRequest = dp::DpfPirRequest::HelperRequest;

inline std::string Printable(const std::string& s) {
  std::string r;
  for (unsigned char c : s.substr(0, 12)) r += c >= 33 && c < 127 && c != '\\' ? std::string(1, c) : F("\\%02x", c);
  return s.size() > 12 ? r + F("..(%zu)", s.size()) : r;
}

// Stand-in for hybrid encryption: the ciphertext is an opaque handle that says
// nothing about the plaintext; decryption needs the same context.
struct Sealer {
  std::map<std::string, std::pair<std::string, std::string>> table;
  int seals = 0, opens = 0;
  std::string last_plain;
  std::string Seal(absl::string_view plain, absl::string_view ctx) {
    std::string t = F("sealed-%d-%016llx", seals, (unsigned long long)Mix(++seals));
    table[t] = {std::string(plain), std::string(ctx)};
    last_plain = std::string(plain);
    return t;
  }
  absl::StatusOr<std::string> Open(absl::string_view c, absl::string_view ctx) {
    ++opens;
    auto it = table.find(std::string(c));
    if (it == table.end()) return absl::InvalidArgumentError("not a ciphertext");
    if (it->second.second != ctx) return absl::InvalidArgumentError("wrong context");
    return it->second.first;
  }
  auto Encrypter() {
    return [this](absl::string_view p, absl::string_view c) -> absl::StatusOr<std::string> { return Seal(p, c); };
  }
  auto Decrypter() {
    return [this](absl::string_view p, absl::string_view c) -> absl::StatusOr<std::string> { return Open(p, c); };
  }
};

inline std::string Keystream(const std::string& seed, size_t n) {
  AES_KEY k;
  AES_set_encrypt_key(reinterpret_cast<const uint8_t*>(seed.data()), 128, &k);
  std::string r;
  for (uint64_t ctr = 0; r.size() < n; ++ctr) {
    uint8_t in[16] = {0}, out[16];
    for (int i = 0; i < 8; ++i) in[15 - i] = uint8_t(ctr >> (8 * i));
    AES_encrypt(in, out, &k);
    r.append(reinterpret_cast<char*>(out), 16);
  }
  return r.substr(0, n);
}
inline std::string Xor(std::string a, const std::string& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) a[i] ^= b[i];
  return a;
}
inline dp::PirRequest PlainOf(const PlainRequest& p) {
  dp::PirRequest r;
  *r.mutable_dpf_pir_request()->mutable_plain_request() = p;
  return r;
}
inline std::vector<std::string> Parts(const dp::PirResponse& r) {
  std::vector<std::string> v;
  for (auto& s : r.dpf_pir_response().masked_response()) v.push_back(s);
  return v;
}

// A retrieval system of one kind: client, plain server, leader and helper over
// equal databases.
struct System {
  Sealer sealer;
  std::unique_ptr<dp::DpfPirServer> plain, helper, leader;
  int forwarded = 0;
  int order = 0;  // 0: local work first, 1: helper first
  std::vector<dp::PirRequest> to_helper;
  std::vector<dp::PirResponse> from_helper;

  dp::DpfPirServer::ForwardHelperRequestFn Sender() {
    return [this](const dp::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dp::PirResponse> {
      ++forwarded;
      to_helper.push_back(r);
      if (order == 0) w();
      auto resp = helper->HandleRequest(r);
      if (resp.ok()) from_helper.push_back(*resp);
      if (order == 1) w();
      return resp;
    };
  }
};
}  // namespace vp
#endif
