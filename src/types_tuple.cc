#include "type_list.h"
namespace vp {
using dp::Tuple;
using dp::XorWrapper;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
void AddTupleTypes(std::vector<TypeOps>& v) {
  v.push_back(MakeOps<Tuple<u8>>());
  v.push_back(MakeOps<Tuple<u8, u8>>());
  v.push_back(MakeOps<Tuple<u8, u16>>());
  v.push_back(MakeOps<Tuple<u8, u8, u8>>());
  v.push_back(MakeOps<Tuple<u32, u32>>());
  v.push_back(MakeOps<Tuple<u64, u64>>());
  v.push_back(MakeOps<Tuple<u8, u32, u16>>());
  v.push_back(MakeOps<Tuple<u64, u16>>());
  v.push_back(MakeOps<Tuple<u8, u128>>());
  v.push_back(MakeOps<Tuple<u128, u128, u128>>());
  v.push_back(MakeOps<Tuple<u64, u64, u8>>());
  v.push_back(MakeOps<Tuple<Tuple<u8, u16>, u32>>());
  v.push_back(MakeOps<Tuple<u8, Tuple<u16, Tuple<u8>>>>());
  v.push_back(MakeOps<Tuple<XorWrapper<u8>, u8>>());
  v.push_back(MakeOps<Tuple<u16, XorWrapper<u32>, u64>>());
  v.push_back(MakeOps<Tuple<XorWrapper<u128>, XorWrapper<u64>>>());
}
}
