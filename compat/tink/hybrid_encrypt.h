// Stand-in for Tink's interface: only the type is needed to compile /repo.
#ifndef VP_COMPAT_TINK_HYBRID_ENCRYPT_H_
#define VP_COMPAT_TINK_HYBRID_ENCRYPT_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto::tink {
class HybridEncrypt {
 public:
  virtual ~HybridEncrypt() = default;
  virtual absl::StatusOr<std::string> Encrypt(
      absl::string_view plaintext, absl::string_view context_info) const = 0;
};
}  // namespace crypto::tink
#endif
