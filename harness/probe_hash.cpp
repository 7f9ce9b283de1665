// every coroutine that may wait can ask for its own operation hash
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/operation_hash.hpp"

dd::job a(size_t& h) {
  h = co_await dd::this_coro::operation_hash;
}
dd::task<size_t> b() {
  co_return co_await dd::this_coro::operation_hash;
}
dd::async_task<size_t> c() {
  co_return co_await dd::this_coro::operation_hash;
}
dd::logical_thread d(size_t& h) {
  h = co_await dd::this_coro::operation_hash;
}
dd::channel<size_t> e() {
  co_yield co_await dd::this_coro::operation_hash;
}
size_t f(std::coroutine_handle<dd::channel_promise<int>> h) {
  return dd::calculate_operation_hash(h);
}
