// Protobuf 3.21 has no MessageLite::SerializeAsCord.
#ifndef VP_COMPAT_CORD_H_
#define VP_COMPAT_CORD_H_
#include <string>
#include "absl/strings/cord.h"
namespace vp_compat {
struct ToCord {};
inline absl::Cord operator+(std::string s, ToCord) { return absl::Cord(std::move(s)); }
}  // namespace vp_compat
#define SerializeAsCord() SerializeAsString() + ::vp_compat::ToCord {}
#endif
