#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare codec alias via apie wrapper.
     */
    using codec_type = milo::primitive::codec::apie<milo::primitive::codec::base_64<>>;
    
    auto message = "message"sv;
    auto encoded = std::string();
    
    /*
     * Get the result by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     */
    auto encoded_size = codec_type::encode(message, encoded);
    
    /*
     * Prints "bWVzc2FnZQ==".
     */
    std::cout << encoded << "\n";
    
    /*
     * Get the result by value.
     * When retrieving the result by value, pass the resulting container type as a template parameter.
     * Only dynamic containers are supported.
     * Prints "bWVzc2FnZQ==".
     */
    std::cout << codec_type::encode<std::string>(message) << "\n";
    
    return 0;
}
