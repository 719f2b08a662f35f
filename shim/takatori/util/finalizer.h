#pragma once
#include <functional>
namespace takatori::util {
class finalizer {
public:
    finalizer() = default;
    template<class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, finalizer>>>
    finalizer(F&& f) : f_ { std::forward<F>(f) } {}
    ~finalizer() { if (f_) f_(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& o) noexcept : f_ { std::move(o.f_) } { o.f_ = nullptr; }
    finalizer& operator=(finalizer&& o) noexcept { if (f_) f_(); f_ = std::move(o.f_); o.f_ = nullptr; return *this; }
    void cancel() { f_ = nullptr; }
private:
    std::function<void()> f_ {};
};
} // namespace takatori::util
