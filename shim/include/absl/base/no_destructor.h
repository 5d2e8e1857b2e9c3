#pragma once
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts,
            std::enable_if_t<std::is_constructible_v<T, Ts&&...>, int> = 0>
  explicit NoDestructor(Ts&&... args) { new (&space_) T(std::forward<Ts>(args)...); }
  explicit NoDestructor(const T& x) { new (&space_) T(x); }
  explicit NoDestructor(T&& x) { new (&space_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(space_); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  const T* get() const { return reinterpret_cast<const T*>(space_); }
 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
template <typename T> NoDestructor(T) -> NoDestructor<T>;
}
