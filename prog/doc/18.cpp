#include <iostream>
#include <span>
#include <string>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/hmac.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare alias.
     */
    using mac_type = milo::primitive::mac::hmac<milo::primitive::hash::sha_2_256<>>;
    
    auto key     = "key"sv;
    auto message = "message"sv;
    
    /*
     * Declare fixed size buffers.
     * The size of the digest is available in mac_type::digest_size constant.
     */
    char digest_a[mac_type::digest_size]{};
    char digest_b[mac_type::digest_size]{};
    char digest_c[mac_type::digest_size]{};
    char digest_d[mac_type::digest_size]{};
    
    mac_type mac;
    
    /*
     * Initialize with key.
     */
    mac.initialize(key.data(), key.size());
    
    /*
     * Update the message.
     * Works as concatenation.
     * Can be called multiple times.
     */
    mac.update(message.data(), message.size());
    mac.update(message.data(), message.size());
    
    /*
     * Finalize.
     */
    mac.finalize();
    
    /*
     * Get the digest.
     * Can be called multiple times.
     * Returns the size of the stored digest.
     */
    auto digest_a_size = mac.digest(digest_a);
    auto digest_b_size = mac.digest(digest_b);
    
    /*
     * Get the digest again, but this time shorten it.
     * Returns 16.
     */
    auto digest_c_size = mac.digest(digest_c, 16);
    
    /*
     * Get the digest again, but this time ask for more than algorithm can output.
     * There is no overflow.
     * Returns 32.
     */
    auto digest_d_size = mac.digest(digest_d, 100);
    
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_a, digest_a_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_b, digest_b_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_c, digest_c_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_d, digest_d_size)) << "\n";
    
    /*
     * Must be re-initialized before reuse.
     */
    mac.initialize(key.data(), key.size());
    
    return 0;
}
