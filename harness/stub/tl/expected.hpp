#pragma once
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
namespace tl {
template <class E> struct unexpected { E e; };
template <class E> unexpected<std::decay_t<E>> make_unexpected(E&& e) { return {std::forward<E>(e)}; }
template <class T, class E> class expected {
 public:
  template <class U, class = std::enable_if_t<std::is_constructible_v<T, U&&>>> expected(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class G> expected(const unexpected<G>& u) : e_(u.e) {}
  bool has_value() const { return v_.has_value(); }
  explicit operator bool() const { return has_value(); }
  const T& value() const { return *v_; }
  T& value() { return *v_; }
  const T& operator*() const { return *v_; }
  const E& error() const { return e_; }

 private:
  std::optional<T> v_;
  E e_{};
};
}  // namespace tl
