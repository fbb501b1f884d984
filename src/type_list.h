// Value types used by the type-generic harnesses; instantiated in types_*.cc.
#ifndef VP_TYPE_LIST_H_
#define VP_TYPE_LIST_H_
#include "types.h"
namespace vp {
void AddIntTypes(std::vector<TypeOps>&);
void AddModTypes(std::vector<TypeOps>&);
void AddTupleTypes(std::vector<TypeOps>&);
void AddMixedTypes(std::vector<TypeOps>&);
inline std::vector<TypeOps>& AllTypes() {
  static std::vector<TypeOps>* v = [] {
    auto* t = new std::vector<TypeOps>;
    AddIntTypes(*t);
    AddModTypes(*t);
    AddTupleTypes(*t);
    AddMixedTypes(*t);
    return t;
  }();
  return *v;
}
inline const TypeOps* TypeByName(const std::string& n) {
  for (auto& t : AllTypes()) if (t.name == n) return &t;
  return nullptr;
}
}  // namespace vp
#endif
