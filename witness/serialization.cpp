// instantiates the serializers for one type of every kind they support; never run
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <maf/utils/serialization/Serializer.h>
#include <maf/utils/serialization/VariantSerializer.h>

#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>

namespace witness {
using namespace maf::srz;
enum class Enum : uint16_t { A, B };
struct Text : std::string {};
struct Pure {
  int a = 0;
  std::string b;
  std::vector<int> c;
  bool operator==(const Pure &o) const { return a == o.a && b == o.b && c == o.c; }
};
class Fields {
  std::string name_;
  uint64_t id_ = 0;
  std::list<Enum> tags_;
  MC_MAF_GENERATE_AS_TUPLE_METHOD(name_, id_, tags_)
};
class More : public Fields {
  double weight_ = 0;
  MC_MAF_GENERATE_AS_TUPLE_METHOD_WITH_BASE_CLASS(Fields, weight_)
};

template <class T>
void each(OByteStream &os, IByteStream &is, IByteStreamView &view, T &value, maf::srz::SizeType &size) {
  maf::srz::serialize(os, value);
  maf::srz::deserialize(is, value);
  maf::srz::deserialize(view, value);
  size += maf::srz::serializedSize(value);
}
#define USE(...) template void each<__VA_ARGS__>(OByteStream &, IByteStream &, IByteStreamView &, __VA_ARGS__ &, maf::srz::SizeType &);
USE(int)
USE(bool)
USE(char)
USE(double)
USE(unsigned long)
USE(Enum)
USE(int *)
USE(std::shared_ptr<std::string>)
USE(std::unique_ptr<Pure>)
USE(std::vector<int>)
USE(std::vector<std::string>)
USE(std::list<Enum>)
USE(std::set<std::string>)
USE(std::map<int, std::string>)
USE(std::unordered_map<std::string, std::vector<int>>)
USE(std::pair<int, std::string>)
USE(std::tuple<int, std::string, double>)
USE(std::string)
USE(std::wstring)
USE(Text)
USE(Pure)
USE(Fields)
USE(More)
using Variant = std::variant<int, std::string, Pure>;
void variant(OByteStream &os, IByteStream &is, Variant &v) {
  maf::srz::serialize(os, v);
  maf::srz::deserialize(is, v);
}

void batch(OByteStream &os, IByteStream &is, Pure &p, int &i, std::string &s) {
  SR<OByteStream> sr{os};
  sr << p << i;
  sr.serializeBatch(p, i, s);
  DSR<IByteStream> ds{is};
  ds >> p >> i;
  ds.deserializeBatch(p, i, s);
}

std::shared_ptr<Pure> content(const maf::messaging::CSPayloadIFPtr &p) {
  return maf::messaging::ipc::local::ParamTrait::translate<Pure>(p);
}
maf::messaging::CSPayloadIFPtr payload(const std::shared_ptr<Pure> &p) {
  return maf::messaging::ipc::local::ParamTrait::translate<Pure>(p);
}
}  // namespace witness
