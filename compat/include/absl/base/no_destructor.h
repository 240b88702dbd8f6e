#ifndef VERIF_COMPAT_NO_DESTRUCTOR_H_
#define VERIF_COMPAT_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts,
            typename std::enable_if<
                !(sizeof...(Ts) == 1 &&
                  std::conjunction_v<std::is_same<std::decay_t<Ts>, NoDestructor>...>),
                int>::type = 0>
  explicit constexpr NoDestructor(Ts&&... args) {
    new (static_cast<void*>(space_)) T(std::forward<Ts>(args)...);
  }
  explicit NoDestructor(const T& x) { new (static_cast<void*>(space_)) T(x); }
  explicit NoDestructor(T&& x) { new (static_cast<void*>(space_)) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return std::launder(reinterpret_cast<T*>(space_)); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  const T* get() const { return std::launder(reinterpret_cast<const T*>(space_)); }

 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
template <typename T> NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif
