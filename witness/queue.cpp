// instantiates every member of the blocking queue, including those no source of the repository uses
#include <maf/threading/Queue.h>

#include <chrono>
#include <memory>
#include <string>
#include <vector>

namespace maf::threading {
template class ThreadSafeQueue<std::queue<std::shared_ptr<std::string>>>;
template class ThreadSafeQueue<stdwrap::PriorityQueue<int, std::less<int>>>;
}  // namespace maf::threading

using Q1 = maf::threading::ThreadSafeQueue<std::queue<std::shared_ptr<std::string>>>;
using Q2 = maf::threading::ThreadSafeQueue<maf::stdwrap::PriorityQueue<int, std::less<int>>>;
bool w1(Q1 &q, std::shared_ptr<std::string> &v) {
  return q.waitFor(v, std::chrono::milliseconds{5}) ||
         q.waitUntil(v, std::chrono::system_clock::now()) ||
         q.push(std::vector<std::shared_ptr<std::string>>{v, v});
}
bool w2(Q2 &q, int &v) {
  return q.waitFor(v, std::chrono::milliseconds{5}) ||
         q.waitUntil(v, std::chrono::system_clock::now()) ||
         q.push(std::vector<int>{v, v});
}
