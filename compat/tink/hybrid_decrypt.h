// Stand-in for Tink's interface: only the type is needed to compile /repo.
#ifndef VP_COMPAT_TINK_HYBRID_DECRYPT_H_
#define VP_COMPAT_TINK_HYBRID_DECRYPT_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto::tink {
class HybridDecrypt {
 public:
  virtual ~HybridDecrypt() = default;
  virtual absl::StatusOr<std::string> Decrypt(
      absl::string_view ciphertext, absl::string_view context_info) const = 0;
};
}  // namespace crypto::tink
#endif
