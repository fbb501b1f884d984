// Every single-place change of a protobuf message: each field cleared, set to
// boundary values, each repeated field shortened, lengthened and reordered, each
// alternative of a oneof selected.
#ifndef VP_MUTATE_H_
#define VP_MUTATE_H_
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>

#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "vp.h"

namespace vp {
namespace pb = google::protobuf;

struct Mutation {
  std::string what;
  std::function<void(pb::Message*)> apply;
};

class Mutator {
 public:
  // Elements of a repeated field that are changed inside: the first `head` and the last one.
  int head = 2;
  bool adjust = true;  // also integers next to the present value
  std::vector<Mutation> Of(const pb::Message& m) {
    out_.clear();
    Visit(m, "", [](pb::Message* x) { return x; });
    return std::move(out_);
  }

 private:
  using Path = std::function<pb::Message*(pb::Message*)>;
  using FD = pb::FieldDescriptor;
  std::vector<Mutation> out_;

  void Add(const std::string& what, const Path& path,
           const std::function<void(pb::Message*, const pb::Reflection*)>& f) {
    out_.push_back({what, [path, f](pb::Message* root) {
                      pb::Message* m = path(root);
                      f(m, m->GetReflection());
                    }});
  }
  template <typename T>
  std::vector<T> Ints(T cur) {
    std::vector<T> v = {0, 1, 2, static_cast<T>(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), 128, 1000};
    if (adjust) {
      v.push_back(static_cast<T>(static_cast<uint64_t>(cur) + 1));
      v.push_back(static_cast<T>(static_cast<uint64_t>(cur) - 1));
      v.push_back(cur ^ 64);
      if (sizeof(T) == 4) for (int b = 0; b < 32; ++b) v.push_back(static_cast<T>(cur ^ (uint32_t{1} << b)));
    }
    std::vector<T> r;
    for (T x : v) {
      bool dup = x == cur;
      for (T y : r) dup |= x == y;
      if (!dup) r.push_back(x);
    }
    return r;
  }
  static std::vector<std::string> Strings(const std::string& c) {
    std::vector<std::string> v = {"", c + '\0', c + "x", std::string(1000, 'z')};
    if (!c.empty()) {
      v.push_back(c.substr(1));
      v.push_back(c.substr(0, c.size() - 1));
      std::string a = c, b = c;
      a[0] ^= 1;
      b[b.size() - 1] ^= 0x80;
      v.push_back(a);
      v.push_back(b);
    }
    std::vector<std::string> r;
    for (auto& x : v)
      if (x != c) r.push_back(x);
    return r;
  }
  void Visit(const pb::Message& m, const std::string& name, const Path& path) {
    const pb::Descriptor* d = m.GetDescriptor();
    const pb::Reflection* r = m.GetReflection();
    for (int i = 0; i < d->field_count(); ++i) {
      const FD* f = d->field(i);
      std::string n = name + "/" + f->name();
      if (f->is_repeated()) {
        int size = r->FieldSize(m, f);
        bool msg = f->cpp_type() == FD::CPPTYPE_MESSAGE;
        if (size > 0) {
          Add(n + ":clear", path, [f](pb::Message* x, const pb::Reflection* r) { r->ClearField(x, f); });
          Add(n + ":drop-last", path, [f](pb::Message* x, const pb::Reflection* r) { r->RemoveLast(x, f); });
          Add(n + ":drop-first", path, [f](pb::Message* x, const pb::Reflection* r) {
            for (int k = 0; k + 1 < r->FieldSize(*x, f); ++k) r->SwapElements(x, f, k, k + 1);
            r->RemoveLast(x, f);
          });
          if (msg)
            Add(n + ":dup-last", path, [f](pb::Message* x, const pb::Reflection* r) {
              std::unique_ptr<pb::Message> c(r->GetRepeatedMessage(*x, f, r->FieldSize(*x, f) - 1).New());
              c->CopyFrom(r->GetRepeatedMessage(*x, f, r->FieldSize(*x, f) - 1));
              r->AddMessage(x, f)->CopyFrom(*c);
            });
        }
        if (size > 1)
          Add(n + ":swap", path, [f, size](pb::Message* x, const pb::Reflection* r) { r->SwapElements(x, f, 0, size - 1); });
        if (msg)
          Add(n + ":add-empty", path, [f](pb::Message* x, const pb::Reflection* r) { r->AddMessage(x, f); });
        else if (f->cpp_type() == FD::CPPTYPE_STRING)
          Add(n + ":add-empty", path, [f](pb::Message* x, const pb::Reflection* r) { r->AddString(x, f, ""); });
        for (int k = 0; k < size; ++k) {
          if (k >= head && k != size - 1) continue;
          if (msg)
            Visit(r->GetRepeatedMessage(m, f, k), n + F("[%d]", k), [path, f, k](pb::Message* x) {
              pb::Message* y = path(x);
              return y->GetReflection()->MutableRepeatedMessage(y, f, k);
            });
          else if (f->cpp_type() == FD::CPPTYPE_STRING)
            for (auto& s : Strings(r->GetRepeatedString(m, f, k)))
              Add(n + F("[%d]=str%zu", k, s.size()), path,
                  [f, k, s](pb::Message* x, const pb::Reflection* r) { r->SetRepeatedString(x, f, k, s); });
        }
        continue;
      }
      bool has = f->has_presence() ? r->HasField(m, f) : true;
      if (f->has_presence() && has)
        Add(n + ":clear", path, [f](pb::Message* x, const pb::Reflection* r) { r->ClearField(x, f); });
      switch (f->cpp_type()) {
        case FD::CPPTYPE_MESSAGE:
          if (has) {
            Visit(r->GetMessage(m, f), n, [path, f](pb::Message* x) {
              pb::Message* y = path(x);
              return y->GetReflection()->MutableMessage(y, f);
            });
          } else {
            Add(n + ":set-empty", path, [f](pb::Message* x, const pb::Reflection* r) { r->MutableMessage(x, f); });
          }
          break;
        case FD::CPPTYPE_INT32:
          for (int32_t v : Ints(r->GetInt32(m, f)))
            Add(n + F("=%d", v), path, [f, v](pb::Message* x, const pb::Reflection* r) { r->SetInt32(x, f, v); });
          break;
        case FD::CPPTYPE_INT64:
          for (int64_t v : Ints(r->GetInt64(m, f)))
            Add(n + F("=%lld", (long long)v), path, [f, v](pb::Message* x, const pb::Reflection* r) { r->SetInt64(x, f, v); });
          break;
        case FD::CPPTYPE_UINT32:
          for (uint32_t v : Ints(r->GetUInt32(m, f)))
            Add(n + F("=%u", v), path, [f, v](pb::Message* x, const pb::Reflection* r) { r->SetUInt32(x, f, v); });
          break;
        case FD::CPPTYPE_UINT64:
          for (uint64_t v : Ints(r->GetUInt64(m, f)))
            Add(n + F("=%llu", (unsigned long long)v), path, [f, v](pb::Message* x, const pb::Reflection* r) { r->SetUInt64(x, f, v); });
          break;
        case FD::CPPTYPE_BOOL: {
          bool v = !r->GetBool(m, f);
          Add(n + F("=%d", v), path, [f, v](pb::Message* x, const pb::Reflection* r) { r->SetBool(x, f, v); });
          break;
        }
        case FD::CPPTYPE_DOUBLE: {
          double c = r->GetDouble(m, f);
          for (double v : {0.0, -1.0, 1.0, 128.0, 129.0, (double)INFINITY, -(double)INFINITY, (double)NAN, c + 1e-6, c + 1, c - 1, 5e-324})
            if (v != c)
              Add(n + F("=%g", v), path, [f, v](pb::Message* x, const pb::Reflection* r) { r->SetDouble(x, f, v); });
          break;
        }
        case FD::CPPTYPE_ENUM:
          for (int v : {0, 1, 2, 3, -1, 12345})
            if (v != r->GetEnumValue(m, f))
              Add(n + F("=%d", v), path, [f, v](pb::Message* x, const pb::Reflection* r) { r->SetEnumValue(x, f, v); });
          break;
        case FD::CPPTYPE_STRING:
          for (auto& s : Strings(r->GetString(m, f)))
            Add(n + F("=str%zu", s.size()), path, [f, s](pb::Message* x, const pb::Reflection* r) { r->SetString(x, f, s); });
          break;
        default: break;
      }
    }
  }
};
}  // namespace vp
#endif
