#include <numeric>
#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>

int main()
{
    using namespace std::literals;
    
    using aead_type = milo::primitive::aead::chacha_20_poly_1305<>;
    
    auto key     = std::array<char, aead_type::key_size>{};
    auto iv      = std::array<char, aead_type::iv_size>{};
    auto aad     = "Example message to authenticate."sv;
    auto message = "Example message to encrypt."sv;
    
    std::iota(key.begin(), key.end(), 0x01);
    std::iota(iv.begin(), iv.end(), 0x01);
    
    do
    {
        /*
         * Encrypt and decrypt.
         * Get error by reference.
         */
        
        milo::error error;
        
        auto [ciphertext, mac] = milo::primitive::aead::encrypt<aead_type>(key, iv, aad, message);
        auto plaintext         = milo::primitive::aead::decrypt<aead_type>(key, iv, aad, ciphertext, mac, error);
        
        if (error)
        {
            std::cout << "Unexpected decryption error.\n";
            break;
        }
    
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << std::string_view((const char*)(plaintext.data()), plaintext.size()) << "\n";
    }
    while (false);
    
    try
    {
        /*
         * Encrypt and decrypt.
         * Get error by exception.
         * To achieve this, omit the optional error reference parameter.
         * This time decrypt directly to string.
         * The plaintext type is passed as the second template parameter of the decryption method.
         * Encryption to variable of custom type is also possible, works the same way.
         */
        
        auto [ciphertext, mac] = milo::primitive::aead::encrypt<aead_type, std::string>(key, iv, aad, message);
        auto plaintext         = milo::primitive::aead::decrypt<aead_type, std::string>(key, iv, aad, ciphertext, mac);
    
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << plaintext << "\n";
    }
    catch (const milo::error& error)
    {
        std::cout << "Unexpected decryption error.\n";
    }
    
    try
    {
        /*
         * Encrypt and decrypt.
         * Get error by exception.
         * This time enforce decryption error.
         */
        
        auto [ciphertext, mac] = milo::primitive::aead::encrypt<aead_type>(key, iv, aad, message);
        mac[0]                += 1;
        auto plaintext         = milo::primitive::aead::decrypt<aead_type, std::string>(key, iv, aad, ciphertext, mac);
        
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << plaintext << "\n";
    }
    catch (const milo::error& error)
    {
        std::cout << "Expected decryption error.\n";
    }
    
    return 0;
}
