#pragma once
#include <functional>
#include <memory>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class T>
class maybe_shared_ptr {
public:
    using element_type = T;
    maybe_shared_ptr() noexcept = default;
    maybe_shared_ptr(std::nullptr_t) noexcept {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(U* p) noexcept : s_ { std::shared_ptr<void> {}, p } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::shared_ptr<U> p) noexcept : s_ { std::move(p) } {}
    template<class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::unique_ptr<U, D> p) noexcept : s_ { std::move(p) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(maybe_shared_ptr<U> o) noexcept : s_ { std::move(o).as_shared() } {}
    T* get() const noexcept { return s_.get(); }
    T& operator*() const noexcept { return *s_; }
    T* operator->() const noexcept { return s_.get(); }
    explicit operator bool() const noexcept { return s_.get() != nullptr; }
    bool owner() const noexcept { return s_.use_count() > 0; }
    std::shared_ptr<T> const& as_shared() const& noexcept { return s_; }
    std::shared_ptr<T> as_shared() && noexcept { return std::move(s_); }
    std::shared_ptr<T> ownership() const noexcept { return s_; }
    std::shared_ptr<T> shared() const noexcept { return s_; }
    void reset() noexcept { s_.reset(); }
private:
    std::shared_ptr<T> s_ {};
};
template<class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template<class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, std::shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> bool operator==(std::shared_ptr<U> const& a, maybe_shared_ptr<T> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, std::shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template<class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
template<class T> bool operator==(std::nullptr_t, maybe_shared_ptr<T> const& a) noexcept { return a.get() == nullptr; }
template<class T> bool operator!=(std::nullptr_t, maybe_shared_ptr<T> const& a) noexcept { return a.get() != nullptr; }
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, U* b) noexcept { return a.get() == b; }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, U* b) noexcept { return a.get() != b; }
template<class T> std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& p) { return out << static_cast<void const*>(p.get()); }
} // namespace takatori::util
template<class T> struct std::hash<takatori::util::maybe_shared_ptr<T>> {
    std::size_t operator()(takatori::util::maybe_shared_ptr<T> const& p) const noexcept { return std::hash<T*> {}(p.get()); }
};
