#include <numeric>
#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/aead/chacha.h>

int main()
{
    using namespace std::literals;
    
    using aead_type = milo::primitive::aead::chacha_20_poly_1305<>;
    
    auto key          = std::array<char, aead_type::key_size>{};
    auto iv           = std::array<char, aead_type::iv_size>{};
    auto message      = "Example message to encrypt."sv;
    auto aad          = "Example message to authenticate."sv;
    auto ciphertext   = std::string();
    auto plaintext    = std::string();
    auto digest_enc   = std::array<char, aead_type::digest_size>{};
    auto digest_dec   = std::array<char, aead_type::digest_size>{};
    
    std::iota(key.begin(), key.end(), 0x01);
    std::iota(iv.begin(), iv.end(), 0x01);
    
    aead_type aead;
    
    /*
     * Initialize with key and iv.
     */
    aead.initialize(key.data(), key.size(), iv.data(), iv.size());
    
    /*
     * Can be invoked multiple times to authenticate longer messages.
     */
    aead.aad(aad.data(), aad.size());
    aead.aad(aad.data(), aad.size());
    
    /*
     * Encrypt the message.
     * Encryption works like update.
     * Subsequent calls will still encrypt the message.
     * Decryption works the same way.
     */
    ciphertext.resize(aead.encrypt_size(message.data(), message.size()));
    ciphertext.resize(aead.encrypt(message.data(), message.size(), ciphertext.data()));
    
    /*
     * Must be finalized before getting digest.
     */
    aead.finalize();
    
    /*
     * Get the digest.
     * Can be invoked multiple times.
     */
    aead.digest(digest_enc.data());
    
    /*
     * Reinitialize with key and iv.
     */
    
    aead.initialize(key.data(), key.size(), iv.data(), iv.size());
    aead.aad(aad.data(), aad.size());
    aead.aad(aad.data(), aad.size());
    
    plaintext.resize(aead.decrypt_size(ciphertext.data(), ciphertext.size()));
    plaintext.resize(aead.decrypt(ciphertext.data(), ciphertext.size(), plaintext.data()));
    
    aead.finalize();
    aead.digest(digest_dec.data());
    
    std::cout << "Reference message: "    << message << "\n";
    std::cout << "Decrypted message: " << plaintext << "\n";
    
    /*
     * Digest authentication during decryption is only supported via apie wrapper.
     * Apie verification ensures constant time comparisons.
     * Here, the default comparison is used without such security guarantees.
     */
    
    std::cout << "Encryption mac: " << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_enc) << "\n";
    std::cout << "Decryption mac: " << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_dec) << "\n";
    std::cout << "Authentication: " << std::boolalpha << (digest_enc == digest_dec) << "\n";
    
    return 0;
}
