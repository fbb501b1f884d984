#include "type_list.h"
namespace vp {
using dp::Tuple;
using dp::XorWrapper;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using M8 = dp::IntModN<u8, 251>;
using M32 = dp::IntModN<u32, 4294967291u>;
using M64 = dp::IntModN<u64, 1000000007ull>;
void AddMixedTypes(std::vector<TypeOps>& v) {
  v.push_back(MakeOps<Tuple<M32>>());
  v.push_back(MakeOps<Tuple<M32, M32, M32>>());
  v.push_back(MakeOps<Tuple<M64, M64, M64, M64, M64>>());
  v.push_back(MakeOps<Tuple<M8, M8>>());
  v.push_back(MakeOps<Tuple<u8, M32>>());
  v.push_back(MakeOps<Tuple<M32, u8>>());
  v.push_back(MakeOps<Tuple<M64, u8>>());
  v.push_back(MakeOps<Tuple<u128, M64, XorWrapper<u8>>>());
  v.push_back(MakeOps<Tuple<M32, u128>>());
  v.push_back(MakeOps<Tuple<Tuple<M32, u8>, u64>>());
  v.push_back(MakeOps<Tuple<u8, Tuple<M32, M32>, u16, M64>>());
  v.push_back(MakeOps<Tuple<M32, Tuple<u128, u128>>>());
  v.push_back(MakeOps<Tuple<Tuple<u128, u128>, M32, M32>>());
  v.push_back(MakeOps<Tuple<u64, u32, u16, u8, M64, u8>>());
  v.push_back(MakeOps<Tuple<M64, u64, u32, u16, u8, u8>>());
  v.push_back(MakeOps<Tuple<M64, Tuple<u64, u64, u8>>>());
}
}
