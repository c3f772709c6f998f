#include <iostream>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare alias.
     */
    using hash_type = milo::primitive::hash::sha_2_256<>;
    
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::hash::digest<hash_type>("message"sv)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::hash::digest<hash_type>("message"sv, 16)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::hash::digest<hash_type>("hello world"sv)) << "\n";
    std::cout << milo::primitive::codec::encode<milo::primitive::codec::base_16<>, std::string>(milo::primitive::hash::digest<hash_type>("hello world"sv, 8)) << "\n";
    
    return 0;
}
