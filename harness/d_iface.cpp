// C32: what the documented interface accepts and what it refuses at compile time, and its published constants.
// Prints one line per question: "A|R shape type" for accepted or refused; the check knows what has to be the answer, and
// compiles what should be refused but is not (-DCONFIRM_S=.. -DCONFIRM_T=..), since an error may also come from inside.
#include <array>
#include <bitset>
#include <complex>
#include <cstdio>
#include <deque>
#include <exception>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <valarray>
#include <vector>
#include <milo/option.h>
#include <milo/error.h>
#include <milo/literal.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/codec/apie.h>
namespace mp = milo::primitive;
using sha = mp::hash::sha_2_256<>; using sha1 = mp::hash::sha_1_160<>; using hmac = mp::mac::hmac<sha>; using poly = mp::mac::poly_1305<>; using hkdf = mp::kdf::hkdf<hmac>; using pbkdf = mp::kdf::pbkdf_2<hmac>;
using chacha = mp::cipher::chacha_20<>; using aead = mp::aead::chacha_20_poly_1305<>; using b16 = mp::codec::base_16<>; using b64 = mp::codec::base_64<>;
using S = std::string; using V = std::string_view; using E = milo::error;
#ifndef CONFIRM_S
#define CONFIRM_S -1
#define CONFIRM_T -1
#endif
// Own containers: the first three are byte containers, the others lack something.
struct own { using value_type = char; char b[8]{}; char* data() noexcept { return b; } const char* data() const noexcept { return b; } size_t size() const noexcept { return 8; } };
struct own_plain { using value_type = signed char; signed char b[64]; signed char* data() noexcept { return b; } const signed char* data() const noexcept { return b; } size_t size() const noexcept; };
size_t own_plain::size() const noexcept { return 64; }
struct own_view { using value_type = unsigned char; unsigned char* p = nullptr; unsigned char* data() const noexcept { return p; } size_t size() const noexcept { return 0; } };
struct no_size { using value_type = char; char* data() const noexcept { return nullptr; } };
struct no_data { using value_type = char; size_t size() const noexcept { return 0; } };
struct wide { using value_type = int; int* data() const noexcept { return nullptr; } size_t size() const noexcept { return 0; } };
struct untyped { using value_type = char; void* data() const noexcept { return nullptr; } size_t size() const noexcept { return 0; } };
struct derived_error : milo::error { };

template<class... T> struct list { };
using in_yes = list<S, V, std::vector<char>, std::vector<unsigned char>, std::vector<signed char>, std::array<char, 5>, std::array<unsigned char, 64>, std::span<char>, std::span<const char>, std::span<unsigned char, 16>, std::span<const signed char, 3>, own, own_plain, own_view, const S, const std::vector<unsigned char>>;
using no = list<int, char, double, bool, std::nullptr_t, void*, const char*, std::string*, std::vector<int>, std::vector<short>, std::vector<bool>, std::vector<std::byte>, std::vector<std::string>, std::vector<wchar_t>, std::u8string, std::u16string, std::u32string, std::wstring, std::u8string_view, std::wstring_view,
    std::array<int, 4>, std::array<std::byte, 16>, std::array<bool, 4>, std::array<double, 2>, std::span<int>, std::span<const std::byte>, std::span<float, 4>, std::list<char>, std::deque<char>, std::forward_list<char>, std::set<char>, std::map<char, char>, std::optional<S>, std::unique_ptr<char[]>, std::tuple<char, char>, std::bitset<64>, std::valarray<char>, std::complex<float>, no_size, no_data, wide, untyped>;
using no_num = list<std::nullptr_t, void*, const char*, std::string*, std::vector<int>, std::vector<short>, std::vector<bool>, std::vector<std::byte>, std::vector<std::string>, std::vector<wchar_t>, std::u8string, std::u16string, std::wstring, std::array<int, 4>, std::array<std::byte, 64>, std::span<int>, std::span<std::byte>, std::list<char>, std::deque<char>, std::set<char>, std::optional<S>, std::bitset<64>, std::valarray<char>, no_size, no_data, wide, untyped>;
using out_yes = list<S, std::vector<char>, std::vector<unsigned char>, std::vector<signed char>, std::array<char, 64>, std::array<unsigned char, 64>, std::span<char>, std::span<unsigned char, 64>, own, own_plain>;
using ptr_yes = list<const char*, const unsigned char*, const signed char*, char*, unsigned char*, signed char*>;
using ptr_no = list<const void*, void*, const int*, const short*, const unsigned*, const wchar_t*, const char8_t*, const char16_t*, const std::byte*, const bool*, const double*, const char**, const std::string*, std::nullptr_t, int, size_t, no_size*>;
using optr_yes = list<char*, unsigned char*, signed char*>;
using optr_no = list<const char*, const unsigned char*, const signed char*, void*, int*, short*, unsigned*, wchar_t*, char8_t*, std::byte*, bool*, double*, char**, std::string*, std::nullptr_t, int>;
using err_no = list<int, bool, const E, std::exception, E*, S, std::nullptr_t>;

static long count_ = 0;
template<class SH, class T> void one(const char* shape, int s, int t, const char* want)
{
    constexpr bool got = SH::template ok<T>(); count_++;
    std::printf("%c %s %d %d %s\n", got ? 'A' : 'R', want, s, t, shape);
}
template<class SH, int s, class... T> void run(const char* shape, list<T...>, const char* want, int base) { int t = base; (one<SH, T>(shape, s, t++, want), ...); }
template<class SH, class... T> void confirm(list<T...>) { if constexpr (CONFIRM_T >= 0) { using U = std::tuple_element_t<size_t(CONFIRM_T) % sizeof...(T), std::tuple<T...>>; [[maybe_unused]] static auto volatile f = &SH::template body<U>; } }
// A shape: an expression over x (an lvalue of the type in question), s (text), v (view), k (key) and objects of every kind.
#define OBJ [[maybe_unused]] S s; [[maybe_unused]] V v; [[maybe_unused]] size_t n = 0; [[maybe_unused]] char* p = nullptr; [[maybe_unused]] const char* c = nullptr; [[maybe_unused]] uint32_t it = 1; [[maybe_unused]] E e; \
    [[maybe_unused]] mp::hash::apie<sha> H; [[maybe_unused]] mp::mac::apie<hmac> M; [[maybe_unused]] mp::kdf::apie<hkdf> K; [[maybe_unused]] mp::kdf::apie<pbkdf> P; [[maybe_unused]] mp::cipher::apie<chacha> C; [[maybe_unused]] mp::aead::apie<aead> A; [[maybe_unused]] mp::codec::apie<b64> B; \
    [[maybe_unused]] sha h; [[maybe_unused]] hmac m; [[maybe_unused]] poly o; [[maybe_unused]] hkdf kd; [[maybe_unused]] pbkdf pb; [[maybe_unused]] chacha ci; [[maybe_unused]] aead ae;
#define ARGS [[maybe_unused]] T& x, [[maybe_unused]] S& s, [[maybe_unused]] V& v, [[maybe_unused]] size_t n, [[maybe_unused]] char* p, [[maybe_unused]] const char* c, [[maybe_unused]] uint32_t it, [[maybe_unused]] E& e, \
    [[maybe_unused]] mp::hash::apie<sha>& H, [[maybe_unused]] mp::mac::apie<hmac>& M, [[maybe_unused]] mp::kdf::apie<hkdf>& K, [[maybe_unused]] mp::kdf::apie<pbkdf>& P, [[maybe_unused]] mp::cipher::apie<chacha>& C, [[maybe_unused]] mp::aead::apie<aead>& A, [[maybe_unused]] mp::codec::apie<b64>& B, \
    [[maybe_unused]] sha& h, [[maybe_unused]] hmac& m, [[maybe_unused]] poly& o, [[maybe_unused]] hkdf& kd, [[maybe_unused]] pbkdf& pb, [[maybe_unused]] chacha& ci, [[maybe_unused]] aead& ae
#define SHAPE(ID, ...) struct sh##ID { template<class T> static constexpr bool ok() { return requires(ARGS) { __VA_ARGS__; }; } template<class T> static void body(ARGS) { __VA_ARGS__; } static constexpr const char* text = #__VA_ARGS__; };
#include "iface_shapes.inc"
#undef SHAPE

// Kinds: which primitive goes where.
template<class... T> using kinds = list<T...>;
using all = kinds<sha, sha1, hmac, poly, hkdf, pbkdf, chacha, aead, b16, b64, int, S>;   // 0-1 hash, 2-3 mac, 4 hkdf, 5 pbkdf, 6 cipher, 7 aead, 8-9 codec
#define KIND(ID, MASK, ...) struct kd##ID { template<class T> static constexpr bool ok() { return requires(S& s, V& v, size_t n, char* p, const char* c, uint32_t it, E& e) { __VA_ARGS__; }; } template<class T> static void body(S& s, V& v, size_t n, char* p, const char* c, uint32_t it, E& e) { (void)s; (void)v; (void)n; (void)p; (void)c; (void)it; (void)e; __VA_ARGS__; } static constexpr const char* text = #__VA_ARGS__; static constexpr unsigned mask = MASK; };
KIND(0, 0x003, mp::hash::digest<T>(v)) KIND(1, 0x003, mp::hash::digest<T>(c, n, p)) KIND(2, 0x003, mp::hash::digest<T>(v, s, n)) KIND(3, 0x003, mp::hash::digest<T>(v, n)) KIND(4, 0x003, mp::hash::apie<T>())
KIND(5, 0x00c, mp::mac::digest<T>(v, v)) KIND(6, 0x00c, mp::mac::digest<T>(c, n, c, n, p)) KIND(7, 0x00c, mp::mac::digest<T>(v, v, s)) KIND(8, 0x00c, mp::mac::digest<T>(v, v, n)) KIND(9, 0x00c, mp::mac::apie<T>())
KIND(10, 0x010, mp::kdf::derive<T>(v, v, v, n)) KIND(11, 0x010, mp::kdf::derive<T>(v, v, v, s, n)) KIND(12, 0x010, mp::kdf::derive<T>(c, n, c, n, c, n, p, n)) KIND(13, 0x020, mp::kdf::derive<T>(v, v, it, n)) KIND(14, 0x020, mp::kdf::derive<T>(v, v, it, s, n)) KIND(15, 0x020, mp::kdf::derive<T>(c, n, c, n, it, p, n)) KIND(16, 0x030, mp::kdf::apie<T>())
KIND(17, 0x040, mp::cipher::encrypt<T>(v, v, v)) KIND(18, 0x040, mp::cipher::decrypt<T>(v, v, v)) KIND(19, 0x040, mp::cipher::encrypt<T>(v, v, v, s)) KIND(20, 0x040, mp::cipher::decrypt<T>(c, n, c, n, c, n, p)) KIND(21, 0x040, mp::cipher::apie<T>())
KIND(22, 0x080, mp::aead::encrypt<T>(v, v, v, v)) KIND(23, 0x080, mp::aead::decrypt<T>(v, v, v, v, v)) KIND(24, 0x080, mp::aead::decrypt<T>(v, v, v, v, v, e)) KIND(25, 0x080, mp::aead::decrypt<T>(v, v, v, v, v, s, e)) KIND(26, 0x080, mp::aead::apie<T>())
KIND(27, 0x300, mp::codec::encode<T>(v)) KIND(28, 0x300, mp::codec::decode<T>(v)) KIND(29, 0x300, mp::codec::encode<T>(v, s)) KIND(30, 0x300, mp::codec::decode<T>(v, s, e)) KIND(31, 0x300, mp::codec::decode<T>(c, n, p)) KIND(32, 0x300, mp::codec::apie<T>())
KIND(33, 0x003, mp::mac::hmac<T>()) KIND(34, 0x004, mp::kdf::hkdf<T>()) KIND(35, 0x004, mp::kdf::pbkdf_2<T>())
template<class K, int s, size_t... I, class... T> void kind2(std::index_sequence<I...>, list<T...>) { (one<K, T>(K::text, s, int(I), (K::mask >> I) & 1 ? "A" : "R"), ...); }

// Static results that are too large for the digest are refused.
#define SIZED(ID, D, ...) struct sz##ID { template<class X> static constexpr bool ok() { using T = std::array<char, X::value>; using U = std::array<unsigned char, X::value>; (void)sizeof(T); (void)sizeof(U); return requires(V& v, mp::hash::apie<sha>& H, mp::mac::apie<hmac>& M, mp::mac::apie<poly>& O, mp::aead::apie<aead>& A) { __VA_ARGS__; }; } \
    template<class X> static void body(V& v, mp::hash::apie<sha>& H, mp::mac::apie<hmac>& M, mp::mac::apie<poly>& O, mp::aead::apie<aead>& A) { using T = std::array<char, X::value>; using U = std::array<unsigned char, X::value>; (void)sizeof(T); (void)sizeof(U); (void)v; (void)H; (void)M; (void)O; (void)A; __VA_ARGS__; } static constexpr const char* text = #__VA_ARGS__; static constexpr size_t limit = D; };
using sizes = list<std::integral_constant<size_t, 1>, std::integral_constant<size_t, 2>, std::integral_constant<size_t, 15>, std::integral_constant<size_t, 16>, std::integral_constant<size_t, 17>, std::integral_constant<size_t, 20>, std::integral_constant<size_t, 21>, std::integral_constant<size_t, 31>, std::integral_constant<size_t, 32>, std::integral_constant<size_t, 33>, std::integral_constant<size_t, 64>, std::integral_constant<size_t, 1000>>;
constexpr size_t size_of[] = {1, 2, 15, 16, 17, 20, 21, 31, 32, 33, 64, 1000};
SIZED(0, 32, mp::hash::digest<sha, T>(v)) SIZED(1, 20, mp::hash::digest<sha1, U>(v)) SIZED(2, 32, mp::mac::digest<hmac, T>(v, v)) SIZED(3, 16, mp::mac::digest<poly, U>(v, v)) SIZED(4, 32, H.template digest<T>()) SIZED(5, 32, M.template digest<U>()) SIZED(6, 16, O.template digest<T>()) SIZED(7, 16, A.template digest<T>())
SIZED(8, 16, mp::aead::encrypt<aead, S, T>(v, v, v, v))
template<class K, int s, size_t... I, class... T> void sizedrun(std::index_sequence<I...>, list<T...>) { (one<K, T>(K::text, s, int(I), size_of[I] <= K::limit ? "A" : "R"), ...); }

// Objects can be made, copied, moved and assigned.
template<class T> void traits(const char* n)
{
    auto say = [&](bool b, const char* what) { count_++; std::printf("%c A 900 0 %s of %s\n", b ? 'A' : 'R', what, n); };
    say(std::is_default_constructible_v<T>, "default construction"); say(std::is_copy_constructible_v<T>, "copy construction"); say(std::is_move_constructible_v<T>, "move construction"); say(std::is_copy_assignable_v<T>, "copy assignment"); say(std::is_move_assignable_v<T>, "move assignment"); say(std::is_nothrow_destructible_v<T>, "destruction");
}
static void number(const char* n, size_t got, size_t want) { count_++; std::printf("%c A 901 0 %s is %zu, documented %zu\n", got == want ? 'A' : 'R', n, got, want); }
template<class T> void hash_numbers(const char* n, size_t d, size_t b) { number((S(n) + "::digest_size").c_str(), T::digest_size, d); number((S(n) + "::block_size").c_str(), T::block_size, b); number((S("hmac<") + n + ">::digest_size").c_str(), mp::mac::hmac<T>::digest_size, d); number((S("hmac<") + n + ">::key_size").c_str(), mp::mac::hmac<T>::key_size, 0); number((S("apie<") + n + ">::digest_size").c_str(), mp::hash::apie<T>::digest_size, d);
    traits<T>(n); traits<mp::hash::apie<T>>(n); traits<mp::mac::hmac<T>>(n); traits<mp::mac::apie<mp::mac::hmac<T>>>(n); traits<mp::kdf::hkdf<mp::mac::hmac<T>>>(n); traits<mp::kdf::apie<mp::kdf::hkdf<mp::mac::hmac<T>>>>(n); traits<mp::kdf::pbkdf_2<mp::mac::hmac<T>>>(n); traits<mp::kdf::apie<mp::kdf::pbkdf_2<mp::mac::hmac<T>>>>(n); }

int main()
{
#define SHAPE(ID, ...)
#define RUN_LISTS
#include "iface_shapes.inc"
    [&]<size_t... I>(std::index_sequence<I...> q) {
#define K(ID) kind2<kd##ID, 200 + ID>(q, all{}); if constexpr (CONFIRM_S == 200 + ID) confirm<kd##ID>(all{});
        K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13) K(14) K(15) K(16) K(17) K(18) K(19) K(20) K(21) K(22) K(23) K(24) K(25) K(26) K(27) K(28) K(29) K(30) K(31) K(32) K(33) K(34) K(35)
    }(std::make_index_sequence<12>());
    [&]<size_t... I>(std::index_sequence<I...> q) {
#define Z(ID) sizedrun<sz##ID, 300 + ID>(q, sizes{}); if constexpr (CONFIRM_S == 300 + ID) confirm<sz##ID>(sizes{});
        Z(0) Z(1) Z(2) Z(3) Z(4) Z(5) Z(6) Z(7) Z(8)
    }(std::make_index_sequence<12>());
    hash_numbers<sha1>("sha_1_160", 20, 64); hash_numbers<mp::hash::sha_2_224<>>("sha_2_224", 28, 64); hash_numbers<sha>("sha_2_256", 32, 64); hash_numbers<mp::hash::sha_2_384<>>("sha_2_384", 48, 128); hash_numbers<mp::hash::sha_2_512<>>("sha_2_512", 64, 128); hash_numbers<mp::hash::sha_2_512_224<>>("sha_2_512_224", 28, 128); hash_numbers<mp::hash::sha_2_512_256<>>("sha_2_512_256", 32, 128);
    number("poly key_size", poly::key_size, 32); number("poly digest_size", poly::digest_size, 16); number("chacha key_size", chacha::key_size, 32); number("chacha iv_size", chacha::iv_size, 16); number("aead key_size", aead::key_size, 32); number("aead iv_size", aead::iv_size, 12); number("aead digest_size", aead::digest_size, 16);
    number("apie<poly> key_size", mp::mac::apie<poly>::key_size, 32); number("apie<chacha> key_size", mp::cipher::apie<chacha>::key_size, 32); number("apie<chacha> iv_size", mp::cipher::apie<chacha>::iv_size, 16); number("apie<aead> key_size", mp::aead::apie<aead>::key_size, 32); number("apie<aead> iv_size", mp::aead::apie<aead>::iv_size, 12); number("apie<aead> digest_size", mp::aead::apie<aead>::digest_size, 16);
    traits<poly>("poly_1305"); traits<mp::mac::apie<poly>>("apie<poly_1305>"); traits<chacha>("chacha_20"); traits<mp::cipher::apie<chacha>>("apie<chacha_20>"); traits<aead>("aead"); traits<mp::aead::apie<aead>>("apie<aead>");
    count_++; std::printf("%c A 902 0 milo::error is no std::exception\n", std::is_base_of_v<std::exception, E> ? 'R' : 'A');
    std::printf("= %ld\n", count_);
}
