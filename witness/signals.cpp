#include <maf/utils/SignalSlots.h>

#include <string>
#include <type_traits>

using namespace maf::signal_slots::details;
namespace witness {
using maf::util::ExecutorIFPtr;
struct Obj {
  void on(const int &);
};
using Cas = std::function<void(std::shared_ptr<Connection>, const int &)>;

template <class S>
std::size_t connections(S &s, std::function<void(const int &)> f, Cas cas, ExecutorIFPtr ex, std::shared_ptr<Obj> o, std::shared_ptr<void> v,
                        std::shared_ptr<std::function<void(const int &)>> p, const int &x) {
  Connection c = s.connect(f);
  c = s.connect(f, ex);
  c = s.connect(cas);
  c = s.connect(cas, ex);
  c = s.connect(v, f);
  c = s.connect(v, f, ex);
  c = s.connect(o.get(), &Obj::on);
  c = s.connect(o.get(), &Obj::on, ex);
  c = s.connect(o, &Obj::on);
  c = s.connect(o, &Obj::on, ex);
  s.disconnect(p);
  s(x);
  s.notify(x);
  bool b = c.connected() && c.disconnect() && c.reconnect() && s.connected();
  ScopedConnection sc{std::move(c)};
  sc = ScopedConnection{s.connect(f)};
  ScopedConnectionGroup g;
  g << std::move(sc);
  s.disconnect();
  S t{std::move(s)};
  s = std::move(t);
  return s.connectionCount() + b;
}

template <class S, class T>
void chain(S &s, T &t) {
  s.connect(t);
}

bool awaited(SignalST<int> &s, std::function<void(const int &)> f) {
  auto w = waitableConnect<BasicSignal, NonAtomicObject_<MultiSlotKeeper<int>>, int>(s, f);
  return w.valid() && w.waitFor(std::chrono::seconds{1}) && w.waitUtil(std::chrono::steady_clock::now()) && w.wait();
}

struct ManySignal : Signal<int> {};
struct ManySignalST : SignalST<int> {};
struct ManySignalShared : SharedMutexSignal<int> {};
struct OneSignal : SCSignal<int> {};
struct OneSignalST : SCSignalST<int> {};
struct OneSignalShared : SharedMutexSCSignal<int> {};
bool kinds(ManySignal &a, ManySignalST &b, ManySignalShared &c, OneSignal &d, OneSignalST &e, OneSignalShared &f) {
  return a.connected() && b.connected() && c.connected() && d.connected() && e.connected() && f.connected();
}

using Fi = std::function<void(const int &)>;
using Pi = std::shared_ptr<Fi>;
using Fs = std::function<void(const int &, const std::string &)>;
std::size_t every(Signal<int> &s0, SCSignal<int> &s1, SignalST<int> &s2, SCSignalST<int> &s3, SharedMutexSignal<int> &s4, SharedMutexSCSignal<int> &s5, Fi f, Cas c, ExecutorIFPtr e, std::shared_ptr<Obj> o, std::shared_ptr<void> v, Pi p, const int &x) {
  return connections(s0, f, c, e, o, v, p, x) +
         connections(s1, f, c, e, o, v, p, x) +
         connections(s2, f, c, e, o, v, p, x) +
         connections(s3, f, c, e, o, v, p, x) +
         connections(s4, f, c, e, o, v, p, x) +
         connections(s5, f, c, e, o, v, p, x);
}
template void chain(Signal<int> &, Signal<int> &);
template void chain(SignalST<int> &, Signal<int> &);
}  // namespace witness
template class maf::signal_slots::details::MultiSlotKeeper<int>;
template class maf::signal_slots::details::SingleSlotKeeper<int>;
template class maf::signal_slots::details::MultiSlotKeeper<int, std::string>;
