#include "type_list.h"
namespace vp {
void AddIntTypes(std::vector<TypeOps>& v) {
  v.push_back(MakeOps<uint8_t>());
  v.push_back(MakeOps<uint16_t>());
  v.push_back(MakeOps<uint32_t>());
  v.push_back(MakeOps<uint64_t>());
  v.push_back(MakeOps<u128>());
  v.push_back(MakeOps<dp::XorWrapper<uint8_t>>());
  v.push_back(MakeOps<dp::XorWrapper<uint16_t>>());
  v.push_back(MakeOps<dp::XorWrapper<uint32_t>>());
  v.push_back(MakeOps<dp::XorWrapper<uint64_t>>());
  v.push_back(MakeOps<dp::XorWrapper<u128>>());
}
}
