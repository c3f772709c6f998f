// Kinds of byte containers: standard and user defined, growing and fixed, views, of every byte type.
#pragma once
#include "prim.h"
#include <span>
#include <string>
#include <string_view>
namespace kd
{
    using namespace vh;
    using sc = signed char; using uc = unsigned char;
    // The least a growing container has to offer.
    template<class T> class udyn
    {
        T* p = nullptr; size_t n = 0, c = 0;
    public:
        using value_type = T;
        constexpr udyn() = default;
        constexpr udyn(const udyn& o) { reserve(o.n); for (; n < o.n; n++) p[n] = o.p[n]; }
        constexpr udyn(udyn&& o) noexcept : p(o.p), n(o.n), c(o.c) { o.p = nullptr; o.n = o.c = 0; }
        constexpr udyn& operator=(udyn o) noexcept { std::swap(p, o.p); std::swap(n, o.n); std::swap(c, o.c); return *this; }
        constexpr ~udyn() { delete[] p; }
        constexpr T* data() noexcept { return p; }
        constexpr const T* data() const noexcept { return p; }
        constexpr size_t size() const noexcept { return n; }
        constexpr void reserve(size_t m) { if (m <= c) return; T* q = new T[m]{}; for (size_t i = 0; i < n; i++) q[i] = p[i]; delete[] p; p = q; c = m; }
        constexpr void resize(size_t m, T v) { reserve(m); for (; n < m; n++) p[n] = v; n = m; }
    };
    template<class T, size_t N> struct ustat
    {
        using value_type = T; T a[N ? N : 1];
        constexpr T* data() noexcept { return a; }
        constexpr const T* data() const noexcept { return a; }
        constexpr size_t size() const noexcept { return N; }
    };
    template<class T> struct uview
    {
        using value_type = T; T* p = nullptr; size_t n = 0;
        constexpr T* data() const noexcept { return p; }
        constexpr size_t size() const noexcept { return n; }
    };

    template<int I, size_t N> struct in_kind;
    template<int I, size_t N> struct out_kind;
    constexpr int INS = 25, OUTS = 21, DYNS = 9, STATS = 6;
    #define K(S, I, ...) template<size_t N> struct S<I, N> { using type = __VA_ARGS__; };
    K(in_kind, 0, std::vector<uc>) K(in_kind, 1, std::string) K(in_kind, 2, std::string_view) K(in_kind, 3, std::vector<char>) K(in_kind, 4, std::vector<sc>)
    K(in_kind, 5, std::array<char, N>) K(in_kind, 6, std::array<sc, N>) K(in_kind, 7, std::array<uc, N>) K(in_kind, 8, std::span<char>) K(in_kind, 9, std::span<const uc>)
    K(in_kind, 10, std::span<const sc>) K(in_kind, 11, std::span<uc, N>) K(in_kind, 12, std::span<const char, N>) K(in_kind, 13, std::span<sc, N>)
    K(in_kind, 14, udyn<char>) K(in_kind, 15, udyn<sc>) K(in_kind, 16, udyn<uc>) K(in_kind, 17, ustat<char, N>) K(in_kind, 18, ustat<sc, N>) K(in_kind, 19, ustat<uc, N>)
    K(in_kind, 20, uview<const char>) K(in_kind, 21, uview<const sc>) K(in_kind, 22, uview<uc>) K(in_kind, 23, milo::container::bytes_const_view_dynamic) K(in_kind, 24, milo::container::chars_view_static<N>)
    K(out_kind, 0, std::vector<uc>) K(out_kind, 1, std::string) K(out_kind, 2, std::vector<char>) K(out_kind, 3, std::vector<sc>) K(out_kind, 4, udyn<char>) K(out_kind, 5, udyn<sc>) K(out_kind, 6, udyn<uc>)
    K(out_kind, 7, milo::container::chars_dynamic) K(out_kind, 8, milo::container::bytes_dynamic)
    K(out_kind, 9, std::array<char, N>) K(out_kind, 10, std::array<sc, N>) K(out_kind, 11, std::array<uc, N>) K(out_kind, 12, ustat<char, N>) K(out_kind, 13, ustat<sc, N>) K(out_kind, 14, ustat<uc, N>)
    K(out_kind, 15, std::span<char>) K(out_kind, 16, std::span<sc, N>) K(out_kind, 17, std::span<uc>) K(out_kind, 18, uview<char>) K(out_kind, 19, uview<uc>) K(out_kind, 20, std::span<uc, N>)
    #undef K
    template<class T> concept resizes = requires(T t) { t.reserve(1); t.resize(1, typename T::value_type()); };
    template<class T> concept has_extent = requires { requires (T::extent != std::dynamic_extent); };
    // A container of kind T that holds (or shows) the given bytes.
    template<class T> struct hold
    {
        using V = std::remove_const_t<typename T::value_type>; static constexpr bool owns = !requires(T& t, bytes& b) { T(reinterpret_cast<typename T::value_type*>(b.data()), b.size()); } || resizes<T>;
        bytes st; std::vector<V> mem; T v;
        static T build(std::vector<V>& m)
        {
            if constexpr (resizes<T>) { T t; t.resize(m.size(), V()); for (size_t i = 0; i < m.size(); i++) t.data()[i] = m[i]; return t; }
            else if constexpr (has_extent<T>) return T(m.data(), T::extent);
            else if constexpr (requires { T(m.data(), m.size()); }) return T(m.data(), m.size());
            else if constexpr (requires { T{m.data(), m.size()}; } && !requires { T{}.a; } && !requires { std::tuple_size<T>::value; }) return T{m.data(), m.size()};
            else { T t{}; for (size_t i = 0; i < t.size() && i < m.size(); i++) t.data()[i] = m[i]; return t; }
        }
        explicit hold(const bytes& b) : mem(make(b)), v(build(mem)) {}
        static std::vector<V> make(const bytes& b) { std::vector<V> m; m.reserve(b.size() + 1); for (auto c : b) m.push_back(V(c)); return m; }
        hold(const hold&) = delete;
        bytes get() const { bytes o; for (size_t i = 0; i < v.size(); i++) o.push_back(u8(v.data()[i])); return o; }
    };
    template<class T> bytes get(const T& v) { bytes o; for (size_t i = 0; i < v.size(); i++) o.push_back(u8(v.data()[i])); return o; }
    template<class V> std::vector<V> as(const bytes& b) { std::vector<V> m; m.reserve(b.size() + 1); for (auto c : b) m.push_back(V(c)); return m; }
    template<int B, int E, class F> void each(F&& f) { [&]<int... I>(std::integer_sequence<int, I...>) { (f(std::integral_constant<int, B + I>{}), ...); }(std::make_integer_sequence<int, E - B>{}); }
    template<class F> void each_byte(F&& f) { f(char()); f(sc()); f(uc()); }
}
