#include <iostream>
#include <span>
#include <string>
#include <string_view>
#include <vector>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare alias via apie wrapper.
     */
    using hash_type = milo::primitive::hash::apie<milo::primitive::hash::sha_2_256<>>;
    
    auto message = "message"sv;
    
    char digest_a[hash_type::digest_size]{};
    
    /*
     * Construct instance.
     * Initialization takes place in the constructor.
     */
    hash_type hash;
    
    /*
     * Update the message.
     * Can be done with objective memory or pointers.
     */
    hash.update(message);
    hash.update(message.data(), message.size());
    
    /*
     * Get the digest.
     * Can be called multiple times.
     * Finalization is not required.
     */
    auto digest_a_size = hash.digest(digest_a);
    
    /*
     * Get the digest by value.
     * Returns std::array of bytes with size of hash_type::digest_size.
     */
    auto digest_returned_by_value_1 = hash.digest();
    
    /*
     * Get the digest by value.
     * Returns a byte array of requested size.
     */
    auto digest_returned_by_value_2 = hash.digest<std::array<char, 16>>();
    
    /*
     * Get the digest by value.
     * Returns a byte vector of the requested size or truncated to the hash limit.
     */
    auto digest_returned_by_value_3 = hash.digest(16);
    
    /*
     * Get the digest by value.
     * Returns a byte vector of the requested size or truncated to the hash limit.
     * Notice requesting size of 5000.
     */
    auto digest_returned_by_value_4 = hash.digest(5000);
    
    std::vector<char>    digest_returned_by_reference_1;
    std::array<char, 12> digest_returned_by_reference_2{};
    
    /*
     * Get the digest by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     * 
     * Syntax is hash.digest(target, size = digest_size).
     * Can supply size parameter to get the truncated digest.
     */
    auto digest_returned_by_reference_1_size = hash.digest(digest_returned_by_reference_1);
    
    /*
     * Get the digest by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     * Digest was truncated to 12 due to fixed target.
     * 
     * Syntax is hash.digest(target, size = digest_size).
     * Can supply size parameter to get the truncated digest.
     */
    auto digest_returned_by_reference_2_size = hash.digest(digest_returned_by_reference_2);
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(std::span(digest_a, digest_a_size)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_1) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_2) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_3) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_value_4) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_reference_1) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(digest_returned_by_reference_2) << "\n";
    
    /*
     * Must be re-initialized before reuse.
     */
    hash.initialize();
    
    return 0;
}
