#include <iostream>
#include <span>
#include <string>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare alias.
     */
    using hash_type = milo::primitive::hash::sha_2_256<>;
    
    auto message = "message"sv;
    
    /*
     * Declare fixed size buffers.
     * The size of the digest is available in hash_type::digest_size constant.
     */
    char digest_a[hash_type::digest_size]{};
    char digest_b[hash_type::digest_size]{};
    char digest_c[hash_type::digest_size]{};
    char digest_d[hash_type::digest_size]{};
    
    hash_type hash;
    
    /*
     * Initialize.
     */
    hash.initialize();
    
    /*
     * Update the message.
     * Works as concatenation.
     * Can be called multiple times.
     */
    hash.update(message.data(), message.size());
    hash.update(message.data(), message.size());
    
    /*
     * Finalize.
     */
    hash.finalize();
    
    /*
     * Get the digest.
     * Can be called multiple times.
     * Returns the size of the stored digest.
     */
    auto digest_a_size = hash.digest(digest_a);
    auto digest_b_size = hash.digest(digest_b);
    
    /*
     * Get the digest again, but this time shorten it.
     * Returns 16.
     */
    auto digest_c_size = hash.digest(digest_c, 16);
    
    /*
     * Get the digest again, but this time ask for more than algorithm can output.
     * There is no overflow.
     * Returns 32.
     */
    auto digest_d_size = hash.digest(digest_d, 100);
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_a, digest_a_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_b, digest_b_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_c, digest_c_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_d, digest_d_size)) << "\n";
    
    /*
     * Must be re-initialized before reuse.
     */
    hash.initialize();
    
    return 0;
}
