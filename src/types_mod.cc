#include "type_list.h"
namespace vp {
void AddModTypes(std::vector<TypeOps>& v) {
  v.push_back(MakeOps<dp::IntModN<uint8_t, 3>>());
  v.push_back(MakeOps<dp::IntModN<uint8_t, 128>>());
  v.push_back(MakeOps<dp::IntModN<uint8_t, 251>>());
  v.push_back(MakeOps<dp::IntModN<uint8_t, 255>>());
  v.push_back(MakeOps<dp::IntModN<uint16_t, 2>>());
  v.push_back(MakeOps<dp::IntModN<uint16_t, 65535>>());
  v.push_back(MakeOps<dp::IntModN<uint32_t, 4294967291u>>());
  v.push_back(MakeOps<dp::IntModN<uint32_t, 2147483648u>>());
  v.push_back(MakeOps<dp::IntModN<uint64_t, 18446744073709551557ull>>());
  v.push_back(MakeOps<dp::IntModN<uint64_t, 1000000007ull>>());
  v.push_back(MakeOps<dp::IntModN<u128, (unsigned __int128)(1) << 80>>());
  v.push_back(MakeOps<dp::IntModN<u128, ((unsigned __int128)(1) << 64) + 13>>());
}
}
