#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/codec/base.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare codec alias.
     */
    using codec_type = milo::primitive::codec::base_64<>;
    
    auto message = "message"sv;
    auto encoded = std::string();
    
    /*
     * Get the size of the buffer to allocate.
     */
    auto encoded_size = codec_type::encode_size(message.data(), message.size());
    
    /*
     * Allocate memory.
     */
    encoded.resize(encoded_size);
    
    /*
     * Encode. 
     * Returns size of the result.
     */
    encoded_size = codec_type::encode(message.data(), message.size(), encoded.data());
    
    /*
     * Resize the buffer to the correct size.
     */
    encoded.resize(encoded_size);
    
    /*
     * Prints "bWVzc2FnZQ==".
     */
    std::cout << encoded << "\n";
    
    return 0;
}
