#include <iostream>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare alias.
     */
    using mac_type = milo::primitive::mac::hmac<milo::primitive::hash::sha_2_384<>>;
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::mac::digest<mac_type>("first key"sv,"message"sv)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::mac::digest<mac_type>("first key"sv,"message"sv, 16)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::mac::digest<mac_type>("second key"sv, "hello world"sv)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::mac::digest<mac_type>("second key"sv, "hello world"sv, 8)) << "\n";
    
    return 0;
}
