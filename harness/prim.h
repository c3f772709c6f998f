// The primitives of the library under test: names, backends and the reference each one is judged by.
#pragma once
#include "vh.h"
#include <milo/error.h>
#include <milo/container.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/detail/alias.h>

namespace mp = milo::primitive;

namespace prim
{
    template<ref::alg A> struct hash_of;
    #define PRIM_HASH(A, N) \
        template<> struct hash_of<ref::A> { using any = mp::hash::N<>; using sw = mp::hash_##N##_sw; };
    PRIM_HASH(SHA1, sha_1_160)
    PRIM_HASH(SHA224, sha_2_224)
    PRIM_HASH(SHA256, sha_2_256)
    PRIM_HASH(SHA384, sha_2_384)
    PRIM_HASH(SHA512, sha_2_512)
    PRIM_HASH(SHA512_224, sha_2_512_224)
    PRIM_HASH(SHA512_256, sha_2_512_256)
    #undef PRIM_HASH

    template<class T> struct type_t { using type = T; };

    // Calls f(name, type) for every backend of a hash. The hardware one only where it can run.
    template<ref::alg A, class F> void hash_backends(F&& f)
    {
        f("any", type_t<typename hash_of<A>::any>{});
        f("sw", type_t<typename hash_of<A>::sw>{});
        #if MILO_INTERNAL_ASM
        if constexpr (A == ref::SHA1) f("ni", type_t<mp::hash_sha_1_160_hw_x86_64_ni>{});
        if constexpr (A == ref::SHA224) f("ni", type_t<mp::hash_sha_2_224_hw_x86_64_ni>{});
        if constexpr (A == ref::SHA256) f("ni", type_t<mp::hash_sha_2_256_hw_x86_64_ni>{});
        #endif
    }
    template<class F> void cipher_backends(F&& f)
    {
        f("any", type_t<mp::cipher::chacha_20<>>{});
        f("sw", type_t<mp::cipher_chacha_20_sw>{});
        #if MILO_INTERNAL_ASM
        f("ssse3", type_t<mp::cipher_chacha_20_hw_x86_64_ssse_3>{});
        f("avx2", type_t<mp::cipher_chacha_20_hw_x86_64_avx_2>{});
        #endif
    }
    template<class F> void aead_backends(F&& f)
    {
        f("any", type_t<mp::aead::chacha_20_poly_1305<>>{});
        f("sw", type_t<mp::aead_chacha_20_sw_poly_1305_sw>{});
    }
    template<class H> using hmac = mp::mac::hmac<H>;
    template<class H> using hkdf = mp::kdf::hkdf<mp::mac::hmac<H>>;
    template<class H> using pbkdf = mp::kdf::pbkdf_2<mp::mac::hmac<H>>;
    using poly = mp::mac::poly_1305<>;
    using b16 = mp::codec::base_16<>;
    using b64 = mp::codec::base_64<>;

    #define FOR_ALG(MACRO) MACRO(SHA1) MACRO(SHA224) MACRO(SHA256) MACRO(SHA384) MACRO(SHA512) MACRO(SHA512_224) MACRO(SHA512_256)
}
