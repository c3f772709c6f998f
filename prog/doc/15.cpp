#include <iostream>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>


template<typename t_kdf>
void derive_example(t_kdf& a_kdf)
{
    char key_a[32];
    char key_b[64];
    
    /*
     * Derive.
     */
    auto key_a_size = a_kdf.derive(key_a, 32);
    auto key_b_size = a_kdf.derive(key_b, 32);
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(key_a, key_a_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(key_b, key_b_size)) << "\n";
}

int main()
{
    using namespace std::literals;
    
    std::cout << "Derive with hkdf:\n";
    {
        using hkdf_type = milo::primitive::kdf::hkdf<milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>>;
        
        auto ikm  = "ikm"sv;
        auto salt = "salt"sv;
        auto info = "info"sv;
        
        hkdf_type hkdf;
        hkdf.initialize(ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size());
        derive_example(hkdf);
    }
    
    std::cout << "Derive with pbkdf-2:\n";
    {
        using pbkdf_2_type = milo::primitive::kdf::pbkdf_2<milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>>;
        
        auto ikm        = "ikm"sv;
        auto salt       = "salt"sv;
        auto iterations = 1000;
        
        pbkdf_2_type pbkdf_2;
        pbkdf_2.initialize(ikm.data(), ikm.size(), salt.data(), salt.size(), iterations);
        derive_example(pbkdf_2);
    }
    
    return 0;
}
