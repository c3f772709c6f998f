#include <iostream>
#include <span>
#include <string>
#include <string_view>
#include <vector>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/poly.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare alias via apie wrapper.
     */
    using mac_type = milo::primitive::mac::apie<milo::primitive::mac::poly_1305<>>;
    
    auto key     = "key"sv;
    auto message = "message"sv;
    
    char digest_a[mac_type::digest_size]{};
    
    /*
     * Construct instance.
     * Initialization takes place in the constructor.
     */
    mac_type mac(key);
    
    /*
     * Update the message.
     * Can be done with objective memory or pointers.
     */
    mac.update(message);
    mac.update(message.data(), message.size());
    
    /*
     * Get the digest.
     * Can be called multiple times.
     * Finalization is not required.
     */
    auto digest_a_size = mac.digest(digest_a);
    
    /*
     * Get the digest by value.
     * Returns std::array of bytes with size of mac_type::digest_size.
     */
    auto digest_returned_by_value_1 = mac.digest();
    
    /*
     * Get the digest by value.
     * Returns a byte array of requested size.
     */
    auto digest_returned_by_value_2 = mac.digest<std::array<char, 12>>();
    
    /*
     * Get the digest by value.
     * Returns a byte vector of the requested size or truncated to the mac limit.
     */
    auto digest_returned_by_value_3 = mac.digest(12);
    
    /*
     * Get the digest by value.
     * Returns a byte vector of the requested size or truncated to the mac limit.
     * Notice requesting size of 5000.
     */
    auto digest_returned_by_value_4 = mac.digest(5000);
    
    std::vector<char>    digest_returned_by_reference_1;
    std::array<char, 12> digest_returned_by_reference_2{};
    
    /*
     * Get the digest by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     *
     * Syntax is mac.digest(target, size = digest_size).
     * Can supply size parameter to get the truncated digest.
     */
    auto digest_returned_by_reference_1_size = mac.digest(digest_returned_by_reference_1);
    
    /*
     * Get the digest by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     * Digest was truncated to 12 due to fixed target.
     *
     * Syntax is mac.digest(target, size = digest_size).
     * Can supply size parameter to get the truncated digest.
     */
    auto digest_returned_by_reference_2_size = mac.digest(digest_returned_by_reference_2);
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_a, digest_a_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_1) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_2) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_3) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_4) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_reference_1) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_reference_2) << "\n";
    
    /*
     * Must be re-initialized before reuse.
     */
    mac.initialize(key);
    
    return 0;
}
