#include "pir/testing/encrypt_decrypt.h"
#include "absl/strings/str_cat.h"
namespace distributed_point_functions { namespace pir_testing {
static std::string Head(absl::string_view ctx) { return absl::StrCat("ENC[", ctx.size(), "]", ctx); }
struct E : crypto::tink::HybridEncrypt {
  absl::StatusOr<std::string> Encrypt(absl::string_view p, absl::string_view c) const override { return absl::StrCat(Head(c), p); }
};
struct D : crypto::tink::HybridDecrypt {
  absl::StatusOr<std::string> Decrypt(absl::string_view x, absl::string_view c) const override {
    std::string h = Head(c);
    if (x.substr(0, h.size()) != h) return absl::InvalidArgumentError("bad ciphertext");
    return std::string(x.substr(h.size()));
  }
};
absl::StatusOr<std::unique_ptr<crypto::tink::HybridDecrypt>> CreateFakeHybridDecrypt() { return std::make_unique<D>(); }
absl::StatusOr<std::unique_ptr<crypto::tink::HybridEncrypt>> CreateFakeHybridEncrypt() { return std::make_unique<E>(); }
} }
