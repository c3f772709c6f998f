#include <iostream>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>


template<typename t_kdf>
void derive_example(t_kdf& a_kdf)
{
    std::array<char, 32> key_array{};
    std::vector<char> key_vector;
    
    /*
     * Derive by reference, up to capacity or requested size.
     */
    auto key_array_size = a_kdf.derive(key_array, 32);
    
    /*
     * Derive by reference up to requested size.
     */
    auto key_vector_size = a_kdf.derive(key_vector, 128);
    
    /*
     * Get by value, but dynamically allocated.
     */
    auto key_returned_by_value_1 = a_kdf.derive(32);
    
    /*
     * Get by value, but fixed.
     */
    auto key_returned_by_value_2 = a_kdf.template derive<std::array<char, 32>>();
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(key_array) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(key_vector) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(key_returned_by_value_1) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(key_returned_by_value_2) << "\n";
}

int main()
{
    using namespace std::literals;
    
    std::cout << "Derive with hkdf:\n";
    {
        using hkdf_type = milo::primitive::kdf::apie<milo::primitive::kdf::hkdf<milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>>>;
        
        auto ikm  = "ikm"sv;
        auto salt = "salt"sv;
        auto info = "info"sv;
        
        hkdf_type hkdf(ikm, salt, info);
        derive_example(hkdf);
        
        /*
         * Derive example uses streaming derivation.
         */
        std::cout << "Key:\n";
        std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::kdf::derive<hkdf_type::impl_type>(ikm, salt, info, 224)) << "\n\n" ;
    }
    
    std::cout << "Derive with pbkdf-2:\n";
    {
        using pbkdf_2_type = milo::primitive::kdf::apie<milo::primitive::kdf::pbkdf_2<milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>>>;
        
        auto ikm        = "ikm"sv;
        auto salt       = "salt"sv;
        auto iterations = 1000;
        
        pbkdf_2_type pbkdf_2(ikm, salt, iterations);
        derive_example(pbkdf_2);
        
        /*
         * Derive example uses streaming derivation.
         */
        std::cout << "Key:\n";
        std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::kdf::derive<pbkdf_2_type::impl_type>(ikm, salt, iterations, 224)) << "\n" ;
        
        return 0;
    }
}
