// Given with -include: the library takes this machine for one of the other byte order, and where it copies, compares or
// fills memory as bytes, it sees the bytes in that order: byte k of an element of w bytes is the byte w - 1 - k here.
// Casts to bytes keep the width of the elements they came from (tag); should the library take bytes some other way, what it
// sees is not what such a machine would show: milo_raw_lost and the canary below say that nothing can be judged (exit 76).
#pragma once
namespace vh { inline bool raw_lost(); }
#define VH_RAW 1
#include "big_std.h"
namespace std {
inline std::atomic<bool> milo_raw_lost{false};
template<typename B> struct milo_tag {   // B: unsigned char or const unsigned char
    B* base; size_t off; size_t width;
    milo_tag operator+(size_t n) const { return {base, off + n, width}; }
    milo_tag operator-(size_t n) const { return {base, off - n, width}; }
    milo_tag& operator+=(size_t n) { off += n; return *this; }
    B& operator[](size_t i) const { size_t a = off + i; return base[a / width * width + (width - 1 - a % width)]; }
    B& operator*() const { return (*this)[0]; }
    milo_tag& operator++() { ++off; return *this; }
    milo_tag operator++(int) { auto r = *this; ++off; return r; }
    operator milo_tag<const unsigned char>() const requires(!std::is_const_v<B>) { return {base, off, width}; }
    operator B*() const { milo_raw_lost = true; return base + off; }
};
template<typename T> struct milo_is_tag : false_type {};
template<typename B> struct milo_is_tag<milo_tag<B>> : true_type {};
template<typename T> inline constexpr bool milo_is_bytes = is_pointer_v<T> && is_same_v<remove_cv_t<remove_pointer_t<T>>, unsigned char>;
template<typename T, typename U> constexpr decltype(auto) milo_cast_to(U&& u) {
    using V = decay_t<U>;
    if constexpr (milo_is_tag<V>::value) {
        if constexpr (milo_is_bytes<T>) return V(u);
        else { milo_raw_lost = true; return reinterpret_cast<T>(u.base + u.off); }
    } else if constexpr (is_pointer_v<V> && milo_is_bytes<T>) {
        using E = remove_pointer_t<V>;
        if constexpr (!is_void_v<E> && !is_function_v<E>) {
            if constexpr (sizeof(E) > 1) { using B = remove_pointer_t<T>; return milo_tag<B>{reinterpret_cast<T>(u), 0, is_arithmetic_v<E> ? sizeof(E) : 1}; }
            else return reinterpret_cast<T>(u);
        } else return reinterpret_cast<T>(u);
    } else return reinterpret_cast<T>(static_cast<U&&>(u));
}
template<typename P> auto milo_view(P p) {   // a pointer of any kind as a tag
    if constexpr (milo_is_tag<P>::value) return p;
    else {
        using E = remove_pointer_t<P>; using B = conditional_t<is_const_v<E>, const unsigned char, unsigned char>;
        if constexpr (is_void_v<E>) { milo_raw_lost = true; return milo_tag<B>{static_cast<B*>(p), 0, 1}; }
        else return milo_tag<B>{(B*)(p), 0, is_arithmetic_v<E> ? sizeof(E) : 1};
    }
}
template<typename D, typename S> D milo_memcpy(D d, S s, size_t n) { auto x = milo_view(d); auto y = milo_view(s); for (size_t i = 0; i < n; i++) x[i] = y[i]; return d; }
template<typename D, typename S> D milo_memmove(D d, S s, size_t n) {
    auto x = milo_view(d); auto y = milo_view(s); std::vector<unsigned char> t(n);
    for (size_t i = 0; i < n; i++) t[i] = y[i];
    for (size_t i = 0; i < n; i++) x[i] = t[i];
    return d;
}
template<typename D> D milo_memset(D d, int v, size_t n) { auto x = milo_view(d); for (size_t i = 0; i < n; i++) x[i] = (unsigned char)v; return d; }
template<typename D, typename S> int milo_memcmp(D d, S s, size_t n) { auto x = milo_view(d); auto y = milo_view(s); for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
}
using std::milo_memcpy; using std::milo_memmove; using std::milo_memset; using std::milo_memcmp;
#define native big
#include <milo/meta.h>
#include <milo/internal/base.h>
#include <milo/internal/utility.h>
#define memcpy milo_memcpy
#define memmove milo_memmove
#define memset milo_memset
#define memcmp milo_memcmp
#define reinterpret_cast std::milo_cast_to
#include <milo/internal.h>
#include <milo/option.h>
#include <milo/literal.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/codec/base.h>
#undef reinterpret_cast
#undef memcpy
#undef memmove
#undef memset
#undef memcmp
static_assert(milo::internal::endian_big && !milo::internal::endian_little, "the byte order is not what was asked for");
namespace vh { inline bool raw_lost() { return std::milo_raw_lost; } }
inline const bool milo_raw_canary = [] {
    namespace mi = milo::internal;
    uint8_t b[16]; for (int i = 0; i < 16; i++) b[i] = uint8_t(17 * i + 1);
    uint8_t* volatile p = b; uint32_t w = mi::memory_load<uint32_t>((const uint8_t*)p, 1); uint64_t d = mi::memory_load<uint64_t>((const uint8_t*)p, 1);
    uint8_t o[16] = {}; uint8_t* volatile q = o; mi::memory_stor(q, 0, uint32_t(0x01020304)); mi::memory_stor(q, 1, uint64_t(0x0102030405060708));
    uint32_t hw; uint64_t hd; memcpy(&hw, b + 4, 4); memcpy(&hd, b + 8, 8); uint32_t ow; uint64_t od; memcpy(&ow, o, 4); memcpy(&od, o + 8, 8);
    if (w == hw || d == hd || ow == 0x01020304 || od == 0x0102030405060708) { fprintf(stderr, "the library does not see the other byte order\n"); _exit(76); }
    return true;
}();
