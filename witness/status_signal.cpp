#include <maf/messaging/client-server/ServiceStatusSignal.h>

using namespace maf::messaging;
int w_status(ServiceStatusSignal &s, const ServiceID &id) {
  s.stop();
  s.onServiceStatusChanged(id, Availability::Unavailable, Availability::Available);
  return s.waitIfNot(Availability::Available).isReady() + s.waitIfNot(Availability::Available, 5).isReady() +
         s.waitIfNot(Availability::Available, std::chrono::seconds{5}).isReady() + (int)s.currentStatus();
}
std::shared_ptr<ServiceStatusSignal> w_make() { return serviceStatusSignal(); }
