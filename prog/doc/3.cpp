#include <numeric>
#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/cipher/chacha.h>

int main()
{
    using namespace std::literals;
    
    using cipher_type = milo::primitive::cipher::chacha_20<>;
    
    auto key        = std::array<char, cipher_type::key_size>{};
    auto iv         = std::array<char, cipher_type::iv_size>{};
    auto message    = "Example message to encrypt."sv;
    auto ciphertext = std::string();
    auto plaintext  = std::string();
    
    std::iota(key.begin(), key.end(), 0x01);
    std::iota(iv.begin(), iv.end(), 0x01);
    
    cipher_type cipher;
    
    /*
     * Initialize with key and iv.
     */
    cipher.initialize(key.data(), key.size(), iv.data(), iv.size());
    
    /*
     * Encrypt the message.
     */
    ciphertext.resize(cipher.encrypt_size(message.data(), message.size()));
    ciphertext.resize(cipher.encrypt(message.data(), message.size(), ciphertext.data()));
    
    /*
     * Initialize with key and iv.
     */
    cipher.initialize(key.data(), key.size(), iv.data(), iv.size());
    
    /*
     * Decrypt the ciphertext.
     */
    plaintext.resize(cipher.decrypt_size(ciphertext.data(), ciphertext.size()));
    plaintext.resize(cipher.decrypt(ciphertext.data(), ciphertext.size(), plaintext.data()));
    
    std::cout << "Reference message: " << message << "\n";
    std::cout << "Decrypted message: " << plaintext << "\n";
    
    return 0;
}
