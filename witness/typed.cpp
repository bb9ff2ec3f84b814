// every typed operation of a proxy and a stub, over both kinds of content translation
#include <maf/messaging/client-server/BasicProxy.h>
#include <maf/messaging/client-server/BasicStub.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>
#include <maf/messaging/client-server/itc/ParamTrait.h>

// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(ask)
    INPUT((std::string, question))
    OUTPUT((int, answer))
ENDREQUEST(ask)
VOID_REQUEST(order)
SIGNAL(tick)
    ATTRIBUTES((int, count))
ENDSIGNAL(tick)
VOID_SIGNAL(ping)
PROPERTY(level)
    STATUS((int, height))
ENDPROPERTY()
// clang-format on
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>

namespace witness {
using namespace maf::messaging;

template <class P>
struct Typed {
  using Client = BasicProxy<P>;
  using Service = BasicStub<P>;
  template <class T>
  using Answer = typename Client::template Response<T>;
  template <class T>
  using Asked = typename Service::template Request<T>;

  static void client(Client &p, ActionCallStatus *s, RequestTimeoutMs t,
                     maf::util::ExecutorIFPtr e,
                     std::function<void(const std::shared_ptr<level_property::status> &)> onStatus,
                     std::function<void(const std::shared_ptr<tick_signal::attributes> &)> onTick,
                     std::function<void()> onPing,
                     std::function<void(Answer<ask_request::output>)> onAnswer,
                     std::function<void(Answer<order_request>)> onDone,
                     std::shared_ptr<ask_request::input> in, RegID id,
                     std::shared_ptr<ServiceStatusObserverIF> o,
                     std::function<void(Availability, Availability)> onServed) {
    p.template registerStatus<level_property::status>(onStatus, s);
    p.template registerSignal<tick_signal::attributes>(onTick, s);
    p.template registerSignal<ping_signal>(onPing, s);
    p.unregister(id);
    p.unregisterAll(level_property::ID);
    p.template getStatus<level_property::status>(s, t);
    p.template getStatus<level_property::status>(onStatus);
    p.template sendRequestAsync<ask_request::output>(in, onAnswer, s);
    p.template sendRequestAsync<order_request>(onDone, s);
    p.template sendRequest<ask_request::output>(in, s, t);
    p.template sendRequest<order_request>(s, t);
    p.abortRequest(id, s);
    p.registerServiceStatusObserver(o);
    p.unregisterServiceStatusObserver(o);
    p.onServiceStatusChanged(onServed);
    p.setExecutor(e);
    p.getExecutor();
    p.getRequester();
    p.with(e);
    p.serviceID();
    p.serviceStatus();
    Client::createProxy(ConnectionType{}, Address{}, ServiceID{}, e, o);
  }

  static void service(Service &p, maf::util::ExecutorIFPtr e, int n,
                      std::shared_ptr<level_property::status> status,
                      std::shared_ptr<tick_signal::attributes> tick,
                      std::function<void(Asked<ask_request::input>)> onAsk,
                      std::function<void(Asked<order_request>)> onOrder,
                      std::function<void(const std::shared_ptr<level_property::status> &)> onStatus,
                      std::function<void(const std::shared_ptr<tick_signal::attributes> &)> onTick,
                      std::function<void()> onPing) {
    p.setStatus(status);
    p.template setStatus<level_property::status>(n);
    p.template removeProperty<level_property>(n != 0);
    p.template getStatus<level_property::status>();
    p.broadcastSignal(tick);
    p.template broadcastSignal<tick_signal::attributes>(n);
    p.template broadcastSignal<ping_signal>();
    p.template registerRequestHandler<ask_request::input>(onAsk);
    p.template registerRequestHandler<order_request>(onOrder);
    p.template unregisterRequestHandler<order_request>();
    p.template registerNotification<level_property::status>(onStatus);
    p.template registerNotification<tick_signal::attributes>(onTick);
    p.template registerNotification<ping_signal>(onPing);
    p.startServing();
    p.stopServing();
    p.setExecutor(e);
    p.getExecutor();
    p.with(e);
    p.serviceID();
    p.availability();
    Service::createStub(ConnectionType{}, Address{}, ServiceID{}, e);
  }

  static void asked(Asked<ask_request::input> r, Asked<order_request> v, int n,
                    std::shared_ptr<ask_request::output> out,
                    std::shared_ptr<CSError> err, std::function<void()> f,
                    maf::util::ExecutorIFPtr e) {
    r.getInput();
    r.respond(out);
    r.template respond<ask_request::output>(n);
    r.update(out);
    r.template update<ask_request::output>(n);
    r.error(err);
    r.error("no");
    r.onAborted(f, e);
    r.onAborted(f);
    r.valid();
    r.getOperationID();
    r.getOperationCode();
    r.getRequestID();
    v.getInput();
    v.respond();
    v.update();
    Asked<order_request> w{std::move(v)};
    v = std::move(w);
  }

  static void answered(Answer<ask_request::output> a) {
    Answer<ask_request::output> none;
    a.isError();
    a.isOutput();
    a.hasValue();
    a.getOutput();
    a.getError();
  }
};
template struct Typed<itc::ParamTrait>;
template struct Typed<ipc::local::ParamTrait>;
}  // namespace witness
