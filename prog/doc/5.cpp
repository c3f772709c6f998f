#include <numeric>
#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>

int main()
{
    using namespace std::literals;
    
    using cipher_type = milo::primitive::cipher::chacha_20<>;
    
    auto key = std::array<char, cipher_type::key_size>{};
    auto iv = std::array<char, cipher_type::iv_size>{};
    auto message = "Example message to encrypt."sv;
    
    std::iota(key.begin(), key.end(), 0x01);
    std::iota(iv.begin(), iv.end(), 0x01);
    
    {
        std::cout << "Example with fixed memory:\n";
        
        std::array<char, 1024> ciphertext;
        std::array<char, 1024> plaintext;
        
        auto ciphertext_size = milo::primitive::cipher::encrypt<cipher_type>(key, iv, message, ciphertext);
        auto plaintext_size = milo::primitive::cipher::decrypt<cipher_type>(key, iv, std::span(ciphertext.data(), ciphertext_size), plaintext);
        
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << std::string_view(plaintext.data(), plaintext_size) << "\n";
    }
    
    {
        std::cout << "\n";
        std::cout << "Example with dynamic memory returned by reference:\n";
        
        std::string ciphertext;
        std::string plaintext;
        
        milo::primitive::cipher::encrypt<cipher_type>(key, iv, message, ciphertext);
        milo::primitive::cipher::decrypt<cipher_type>(key, iv, ciphertext, plaintext);
        
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << std::string_view(plaintext.data(), plaintext.size()) << "\n";
    }
    
    {
        std::cout << "\n";
        std::cout << "Example with dynamic memory returned by value:\n";
        
        auto ciphertext = milo::primitive::cipher::encrypt<cipher_type, std::string>(key, iv, message);
        auto plaintext = milo::primitive::cipher::decrypt<cipher_type, std::string>(key, iv, ciphertext);
        
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << plaintext << "\n";
    }
    
    return 0;
}
