// what a user may do with the results of when_all / when_any
#include <utility>
#include <cassert>
#include <string>
#include "kelcoro/task.hpp"
#include "kelcoro/algorithm.hpp"
template <typename T>
void use(dd::expected<T, std::exception_ptr>& e, const dd::expected<T, std::exception_ptr>& c) {
  (void)(e ? 1 : 0);
  (void)e.has_value();
  (void)c.has_value();
  std::exception_ptr& x = e.error();
  const std::exception_ptr& y = c.error();
  (void)x, (void)y;
  if constexpr (!std::is_void_v<T>) {
    T& v = *e;
    const T& w = *c;
    (void)v, (void)w;
  }
}
template void use<int>(dd::expected<int, std::exception_ptr>&, const dd::expected<int, std::exception_ptr>&);
template void use<void>(dd::expected<void, std::exception_ptr>&, const dd::expected<void, std::exception_ptr>&);
template void use<std::string>(dd::expected<std::string, std::exception_ptr>&, const dd::expected<std::string, std::exception_ptr>&);
