// identifiers, messages and what they carry, used in every way a program may use them
#include <maf/utils/cppextension/Aggregate.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/CSMessage.h>
#include <maf/messaging/client-server/RegID.h>
#include <maf/messaging/client-server/ipc/local/IncomingPayload.h>
#include <maf/messaging/client-server/ipc/local/OutgoingPayload.h>
#include <maf/messaging/client-server/itc/Payload.h>

// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(place)
    INPUT((int, number), (std::string, text), (uint64_t, wide))
ENDREQUEST(place)
// clang-format on
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>

namespace witness {
using namespace maf::messaging;

using Placed = place_request::input;
bool same(const Placed &a, const Placed &b) { return a == b; }
bool differs(const Placed &a, const Placed &b) { return a != b; }
bool before(const Placed &a, const Placed &b) { return a < b; }

struct Content {
  int number = 0;
  bool operator==(const Content &o) const { return number == o.number; }
};

bool same(const RegID &a, const RegID &b) { return a == b; }
bool differs(const RegID &a, const RegID &b) { return a != b; }
bool before(const RegID &a, const RegID &b) { return a < b; }
bool usable(const RegID &a) { return a.valid(); }
void forget(RegID &a) { a.clear(); }
void move(RegID &a, RegID &b) { a = std::move(b); }
void take(RegID &&a) { RegID b{std::move(a)}; }
void allocate(RegID &a, CSIDManager &m) { RegID::allocateUniqueID(a, m); }
void reclaim(RegID &a, CSIDManager &m) { RegID::reclaimID(a, m); }
uint64_t next(maf::util::IDManager &m) { return m.allocateNewID(); }

CSMsgPayloadIF *in(std::shared_ptr<Content> c) {
  auto p = new itc::Payload<Content>{CSPayloadType::IncomingData, c};
  p->setContent(c);
  p->setContent(std::move(c));
  return p;
}
CSMsgPayloadIF *out(std::shared_ptr<Content> c, std::ostream &o) {
  return new ipc::local::OutgoingPayloadT<Content>{c};
}
template <class T>
void copy(T &a, const T &b) {
  if constexpr (std::is_copy_constructible_v<T>) {
    static T c{b};
  }
  if constexpr (std::is_copy_assignable_v<T>) {
    a = b;
  }
}
template <class T>
void move(T &a, T &b) {
  if constexpr (std::is_move_constructible_v<T>) {
    static T c{std::move(b)};
  }
  if constexpr (std::is_move_assignable_v<T>) {
    a = std::move(b);
  }
}
template <class T>
void both(T &a, T &b) {
  copy(a, b);
  move(a, b);
}
void copies(CSMessage &m, CSError &e, itc::Payload<Content> &p, ipc::local::OutgoingPayloadT<Content> &o,
            ipc::local::IncomingPayload &i, Address &a) {
  both(m, m);
  both(e, e);
  both(p, p);
  both(o, o);
  both(i, i);
  both(a, a);
}
}  // namespace witness

namespace maf {
namespace srz {
template <class OStream>
void _dump(OStream &os, const witness::Content &c, int) { os << c.number; }
}  // namespace srz
}  // namespace maf
