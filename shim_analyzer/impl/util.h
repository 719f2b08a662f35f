#pragma once
// a minimal stand-in of the takatori utilities which the analyzer depends on
#include <algorithm>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <takatori/util/clonable.h>
#include <takatori/util/clone_tag.h>
#include <takatori/util/downcast.h>
#include <takatori/util/enum_set.h>
#include <takatori/util/exception.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/util/meta_type.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/rvalue_ptr.h>

namespace takatori::util {

template<class T>
class sequence_view {
public:
    using value_type = std::remove_cv_t<T>;
    using iterator = T*;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T* p, std::size_t n) noexcept : p_ { p }, n_ { n } {}
    template<class C, class = decltype(std::declval<C&>().data())>
    constexpr sequence_view(C& c) noexcept : p_ { c.data() }, n_ { c.size() } {}
    constexpr bool empty() const noexcept { return n_ == 0; }
    constexpr std::size_t size() const noexcept { return n_; }
    constexpr T* begin() const noexcept { return p_; }
    constexpr T* end() const noexcept { return p_ + n_; }
    constexpr T* data() const noexcept { return p_; }
    T& operator[](std::size_t i) const { if (i >= n_) { std::abort(); } return p_[i]; }
    T& at(std::size_t i) const { if (i >= n_) { throw std::out_of_range("sequence_view"); } return p_[i]; }
    T& front() const { return (*this)[0]; }
    T& back() const { return (*this)[n_ - 1]; }
    friend std::ostream& operator<<(std::ostream& out, sequence_view const& v) {
        out << "["; bool f = true;
        for (auto&& e : v) { if (!f) { out << ", "; } f = false; out << e; }
        return out << "]";
    }
private:
    T* p_ {};
    std::size_t n_ {};
};
template<class C> sequence_view(C& c) -> sequence_view<std::remove_pointer_t<decltype(c.data())>>;
template<class C> sequence_view(C const& c) -> sequence_view<std::remove_pointer_t<decltype(c.data())>>;

/// a sequence of polymorphic objects: every access is bounds-checked.
template<class T>
class reference_vector {
    using store = std::vector<std::unique_ptr<T>>;
    template<class V, class I> struct iter {
        using value_type = T; using reference = V&; using pointer = V*; using difference_type = std::ptrdiff_t;
        using iterator_category = std::random_access_iterator_tag;
        I i {};
        V& operator*() const { return **i; }
        V* operator->() const { return i->get(); }
        iter& operator++() { ++i; return *this; }
        iter operator++(int) { auto r = *this; ++i; return r; }
        iter& operator--() { --i; return *this; }
        iter& operator+=(difference_type n) { i += n; return *this; }
        friend iter operator+(iter a, difference_type n) { a.i += n; return a; }
        friend iter operator-(iter a, difference_type n) { a.i -= n; return a; }
        friend difference_type operator-(iter a, iter b) { return a.i - b.i; }
        V& operator[](difference_type n) const { return *i[n]; }
        friend bool operator==(iter a, iter b) { return a.i == b.i; }
        friend bool operator!=(iter a, iter b) { return a.i != b.i; }
        friend bool operator<(iter a, iter b) { return a.i < b.i; }
    };
public:
    using value_type = T;
    using iterator = iter<T, typename store::iterator>;
    using const_iterator = iter<T const, typename store::const_iterator>;
    reference_vector() = default;
    reference_vector(std::vector<std::unique_ptr<T>> v) : v_ { std::move(v) } {}
    reference_vector(std::vector<T> v) { v_.reserve(v.size()); for (auto& e : v) { push_back(std::move(e)); } }
    reference_vector(std::initializer_list<rvalue_ptr<T>> v) { for (auto& e : v) { v_.push_back(clone_unique(e)); } }
    reference_vector(reference_vector&&) noexcept = default;
    reference_vector& operator=(reference_vector&&) noexcept = default;
    reference_vector(reference_vector const& o) { for (auto& e : o) { v_.push_back(clone_unique(e)); } }
    std::size_t size() const noexcept { return v_.size(); }
    bool empty() const noexcept { return v_.empty(); }
    void reserve(std::size_t n) { v_.reserve(n); }
    void clear() { v_.clear(); }
    /// the elements themselves (the stand-ins never reallocate what the libraries only hand over)
    store take() { return std::move(v_); }
    T& operator[](std::size_t i) { return *v_.at(i); }
    T const& operator[](std::size_t i) const { return *v_.at(i); }
    T& at(std::size_t i) { return *v_.at(i); }
    T const& at(std::size_t i) const { return *v_.at(i); }
    T& front() { return *v_.at(0); }
    T const& front() const { return *v_.at(0); }
    T& back() { return *v_.at(v_.size() - 1); }
    T const& back() const { return *v_.at(v_.size() - 1); }
    void push_back(std::unique_ptr<T> p) { v_.push_back(std::move(p)); }
    void push_back(T&& e) {
        if constexpr (std::is_abstract_v<T>) { v_.push_back(clone_unique(std::move(e))); }
        else { v_.push_back(std::make_unique<T>(std::move(e))); }
    }
    template<class... A> T& emplace_back(A&&... a) { v_.push_back(std::make_unique<T>(std::forward<A>(a)...)); return *v_.back(); }
    iterator begin() { return { v_.begin() }; }
    iterator end() { return { v_.end() }; }
    const_iterator begin() const { return { v_.begin() }; }
    const_iterator end() const { return { v_.end() }; }
    const_iterator cbegin() const { return { v_.begin() }; }
    const_iterator cend() const { return { v_.end() }; }
    iterator erase(const_iterator p) { return { v_.erase(p.i) }; }
    iterator erase(const_iterator a, const_iterator b) { return { v_.erase(a.i, b.i) }; }
    friend bool operator==(reference_vector const& a, reference_vector const& b) {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }
    friend bool operator!=(reference_vector const& a, reference_vector const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, reference_vector const& v) {
        out << "["; bool f = true;
        for (auto& e : v) { if (!f) { out << ", "; } f = false; out << e; }
        return out << "]";
    }
private:
    store v_;
};

/// a reference to an owned slot of expression.
template<class T>
class ownership_reference {
public:
    explicit ownership_reference(std::unique_ptr<T>& p) : p_ { std::addressof(p) } {}
    bool has_value() const { return static_cast<bool>(*p_); }
    explicit operator bool() const { return has_value(); }
    T& get() const { return **p_; }
    T& value() const { return **p_; }
    T& operator*() const { return **p_; }
    T* operator->() const { return p_->get(); }
    optional_ptr<T> find() const { return optional_ptr<T> { p_->get() }; }
    void set(std::unique_ptr<T> p) const { *p_ = std::move(p); }
    std::unique_ptr<T> exchange(std::unique_ptr<T> p) const { std::swap(*p_, p); return p; }
    ownership_reference& operator=(std::unique_ptr<T> p) { *p_ = std::move(p); return *this; }
private:
    std::unique_ptr<T>* p_;
};

namespace print_details {
template<class T, class = void> struct printable : std::false_type {};
template<class T> struct printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T const&>())>> : std::true_type {};
template<class T> std::ostream& print(std::ostream& out, T const& v);
template<class T> std::ostream& print(std::ostream& out, std::optional<T> const& v) { if (v) { return print(out, *v); } return out << "(empty)"; }
template<class T> std::ostream& print(std::ostream& out, T const& v) {
    if constexpr (printable<T>::value) { return out << v; }
    else {
        out << "["; bool f = true;
        for (auto&& e : v) { if (!f) { out << ", "; } f = false; print(out, e); }
        return out << "]";
    }
}
} // namespace print_details
template<class T> struct print_support {
    T const& value;
    explicit print_support(T const& v) : value { v } {}
    friend std::ostream& operator<<(std::ostream& out, print_support const& v) { return print_details::print(out, v.value); }
};
template<class T> print_support(T const&) -> print_support<T>;
template<class T> struct optional_print_support {
    T const& value;
    explicit optional_print_support(T const& v) : value { v } {}
    friend std::ostream& operator<<(std::ostream& out, optional_print_support const& v) {
        if (v.value) { return out << *v.value; }
        return out << "(empty)";
    }
};
template<class T> optional_print_support(T const&) -> optional_print_support<T>;
template<class T> print_support<std::optional<T>> operator_unused(std::optional<T> const&);
template<class T> struct vector_print_support {
    T const& value;
    explicit vector_print_support(T const& v) : value { v } {}
    friend std::ostream& operator<<(std::ostream& out, vector_print_support const& v) {
        out << "["; bool f = true;
        for (auto&& e : v.value) { if (!f) { out << ", "; } f = false; out << e; }
        return out << "]";
    }
};
template<class T> vector_print_support(T const&) -> vector_print_support<T>;

struct in_place_error_t { explicit constexpr in_place_error_t() = default; };
inline constexpr in_place_error_t in_place_error {};
template<class E, class V>
class either {
public:
    template<class U, class = std::enable_if_t<std::is_constructible_v<V, U>>>
    either(U&& v) : v_ { std::in_place_index<1>, std::forward<U>(v) } {}
    template<class... A>
    either(in_place_error_t, A&&... a) : v_ { std::in_place_index<0>, std::forward<A>(a)... } {}
    bool has_value() const { return v_.index() == 1; }
    explicit operator bool() const { return has_value(); }
    bool is_error() const { return !has_value(); }
    E const& error() const { return std::get<0>(v_); }
    V const& value() const& { return std::get<1>(v_); }
    V& value() & { return std::get<1>(v_); }
    V&& value() && { return std::get<1>(std::move(v_)); }
    V const& operator*() const { return value(); }
    V const* operator->() const { return &value(); }
private:
    std::variant<E, V> v_;
};
} // namespace takatori::util
