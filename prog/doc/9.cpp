#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/codec/base.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare codec alias.
     */
    using codec_type = milo::primitive::codec::base_64<>;
    
    auto message = "bWVzc2FnZQ=="sv;
    auto decoded = std::string();
    auto error = milo::error();
    
    /*
     * Get the size of the buffer to allocate.
     */
    auto decoded_size = codec_type::decode_size(message.data(), message.size());
    
    /*
     * Allocate memory.
     */
    decoded.resize(decoded_size);
    
    /*
     * Decode. 
     * Returns size of the result.
     */
    decoded_size = codec_type::decode(message.data(), message.size(), decoded.data(), error);
    
    /*
     * May fail if the value or size of the input is invalid.
     * Exception throwing interfaces are available through the apie wrapper.
     */
    if (error)
    {
        std::cerr << "Unexpected decoding error.\n";
        return -1;
    }
    
    /*
     * Resize the buffer to the correct size.
     */
    decoded.resize(decoded_size);
    
    /*
     * Prints "message".
     */
    std::cout << decoded << "\n";
    
    return 0;
}
