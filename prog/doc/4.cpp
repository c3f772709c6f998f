#include <numeric>
#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>

int main()
{
    using namespace std::literals;
    
    using cipher_type = milo::primitive::cipher::apie<milo::primitive::cipher::chacha_20<>>;
    
    auto key        = std::array<char, cipher_type::key_size>{};
    auto iv         = std::array<char, cipher_type::iv_size>{};
    auto message    = "Example message to encrypt."sv;
    
    std::iota(key.begin(), key.end(), 0x01);
    std::iota(iv.begin(), iv.end(), 0x01);
    
    {
        std::cout << "\n";
        std::cout << "Example with fixed memory:\n";
        
        std::array<char, 1024> ciphertext;
        std::array<char, 1024> plaintext;
        
        cipher_type cipher(key, iv);
        
        auto ciphertext_size = cipher.encrypt(message, ciphertext);
        
        cipher.initialize(key, iv);
        
        auto plaintext_size = cipher.decrypt(std::span(ciphertext.data(), ciphertext_size), plaintext);
    
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << std::string_view(plaintext.data(), plaintext_size) << "\n";
    }
    
    {
        std::cout << "\n";
        std::cout << "Example with dynamic memory returned by reference:\n";
        
        std::string ciphertext;
        std::string plaintext;
        
        cipher_type cipher(key, iv);
        
        cipher.encrypt(message, ciphertext);
        
        cipher.initialize(key, iv);
        
        cipher.decrypt(ciphertext, plaintext);
    
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << std::string_view(plaintext.data(), plaintext.size()) << "\n";
    }
    
    {
        std::cout << "\n";
        std::cout << "Example with dynamic memory returned by value:\n";
        
        cipher_type cipher(key, iv);
        
        auto ciphertext = cipher.encrypt<std::string>(message);
        
        cipher.initialize(key, iv);
        
        auto plaintext = cipher.decrypt<std::string>(ciphertext);
    
        std::cout << "Reference message: " << message << "\n";
        std::cout << "Decrypted message: " << plaintext << "\n";
    }
    
    return 0;
}
