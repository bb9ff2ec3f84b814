// what a user may do with observables: written against their public interface only
#include <maf/utils/Observable.h>

#include <memory>
#include <string>
#include <tuple>

namespace witness_observables {
namespace mt = maf::signal_slots::mt;
namespace st = maf::signal_slots::st;
using maf::util::ExecutorIFPtr;
using String = std::string;
struct Obj {
  void on(const int &);
};

template <class O>
int single(O &o, const O &k, std::function<void(const int &)> f, const int &x, ExecutorIFPtr ex, std::shared_ptr<Obj> obj) {
  auto c = o.connect(f);
  c = o.connect([f](const int &v) { f(v); });
  c = o.connect(f, ex);
  c = o.connect(obj.get(), &Obj::on);
  c = o.connect(obj, &Obj::on);
  c = o.connect(obj, &Obj::on, ex);
  c = k.connect(f);
  c = o.silentlyConnect(f);
  c = o.silentlyConnect(obj, &Obj::on);
  c = k.silentlyConnect(f);
  o.set(x);
  o = x;
  { *o.mutable_() = x; }
  { *o.silentMutable() = x; }
  int n = o;
  int m = o.mutable_();
  return n + m + o.get() + *k.immutable();
}

template <class O>
int many(O &o, std::function<void(const int &, const String &)> f, const int &x, const String &y, const std::tuple<int, String> &all) {
  auto c = o.connect(f);
  c = o.silentlyConnect(f);
  o = all;
  o.set(x, y);
  o.template set<1>(y);
  o.template set<0, 1>(x, y);
  o.silentSet(x, y);
  o.template silentSet<0>(x);
  { o.mutable_().template get<0>() = x; }
  { std::get<0>(*o.mutable_()) = x; }
  { *o.template mutable_<0>() = x; }
  o.template mutable_<1>()->clear();
  { o.silentMutable().template get<0>() = x; }
  { std::get<0>(*o.silentMutable()) = x; }
  { *o.template silentMutable<1>() = y; }
  { *o.template immutable<1>(); }
  { std::get<0>(*o.immutable()) + std::get<0>(*o.immutable().operator->()); }
  o.template get<1>();
  return std::get<0>(o.get()) + o.immutable().template get<0>();
}

template <class R>
void arithmetic(R &&r, int n) {
  r = n;
  ++r;
  r++;
  r += n;
  r -= n;
  r *= n;
  r /= n;
  r %= n;
  r |= n;
  r &= n;
  r <<= n;
  r >>= n;
  r ^= n;
}

using Fi = std::function<void(const int &)>;
using Fs = std::function<void(const int &, const String &)>;
#define SINGLE(T) template int single(T &, const T &, Fi, const int &, ExecutorIFPtr, std::shared_ptr<Obj>);
SINGLE(mt::Observable<int>)
SINGLE(mt::SCObservable<int>)
SINGLE(st::Observable<int>)
SINGLE(st::SCObservable<int>)
template int many(mt::Observable<int, String> &, Fs, const int &, const String &, const std::tuple<int, String> &);
template int many(mt::SCObservable<int, String> &, Fs, const int &, const String &, const std::tuple<int, String> &);
template int many(st::Observable<int, String> &, Fs, const int &, const String &, const std::tuple<int, String> &);
template void arithmetic(mt::Observable<int> &, int);
template void arithmetic(st::SCObservable<int> &, int);
void arithmetic(mt::Observable<int> &o, int n) { arithmetic(o.mutable_(), n); }
void text(mt::SCObservable<String> &o, const String &s) {
  o = s;
  o.mutable_()->clear();
}

auto joined(mt::Observable<int> &a, mt::Observable<String> &b) { return mt::join(a, b); }
auto joined(mt::Observable<int> &a, mt::Observable<String> &b, mt::Observable<int> &c, mt::Observable<int> &d) { return mt::join(a, b, c, d); }
auto joined(const ExecutorIFPtr &e, mt::Observable<int> &a, mt::Observable<String> &b, mt::Observable<int> &c) { return mt::scjoin(e, a, b, c); }
auto joined(st::Observable<int> &a, st::Observable<int> &b) { return st::join(a, b); }
}  // namespace witness_observables
