#include <numeric>
#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>

int main()
{
    using namespace std::literals;
    
    using aead_type = milo::primitive::aead::apie<milo::primitive::aead::chacha_20_poly_1305<>>;
    
    auto key     = std::array<char, aead_type::key_size>{};
    auto iv      = std::array<char, aead_type::iv_size>{};
    auto message = "Example message to encrypt."sv;
    auto aad     = "Example message to authenticate."sv;
    
    std::iota(key.begin(), key.end(), 0x01);
    std::iota(iv.begin(), iv.end(), 0x01);
    
    aead_type aead(key, iv);
    
    /*
     * Authenticate additional data.
     */
    aead.aad(aad);
    aead.aad(aad);
    
    /*
     * Encrypt the message.
     */
    auto ciphertext = aead.encrypt(message);
    
    /*
     * Get the digest.
     */
    auto digest = aead.digest();
    
    /*
     * Must be re-initialized before reuse.
     */
    aead.initialize(key, iv);
    
    /*
     * Authenticate additional data.
     */
    aead.aad(aad);
    aead.aad(aad);
    
    /*
     * Decrypt the ciphertext to string.
     */
    auto plaintext = aead.decrypt<std::string>(ciphertext);
    
    /*
     * Verify the digest.
     * Get error by reference.
     */
    
    milo::error error;
    
    aead.verify(digest, error);
    
    if (error)
    {
        std::cout << "Unexpected decryption error.\n";
    }
    
    /*
     * Verify the digest.
     * Get error by exception.
     */
    
    try
    {
        aead.verify(digest);
    }
    catch (const milo::error& error)
    {
        std::cout << "Unexpected decryption error.\n";
    }
    
    std::cout << "Reference message: " << message << "\n";
    std::cout << "Decrypted message: " << plaintext << "\n";
    
    /*
     * Force an error by modifying the digest.
     */
    try
    {
        digest[0] += 1;
        aead.verify(digest);
    }
    catch (const milo::error& error)
    {
        std::cout << "Expected decryption error.\n";
    }
    
    return 0;
}
