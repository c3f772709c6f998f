#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare codec alias.
     */
    using codec_type = milo::primitive::codec::base_64<>;
    
    auto message = "message"sv;
    auto encoded = std::string();
    
    /*
     * With oneliners codec_type is passed as the first template parameter to the method.
     */
    
    /*
     * Get the result by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     */
    auto encoded_size = milo::primitive::codec::encode<codec_type>(message, encoded);
    
    /*
     * Prints "bWVzc2FnZQ==".
     */
    std::cout << encoded << "\n";
    
    /*
     * Get the result by value.
     * When retrieving the result by value, pass the resulting container type as a template parameter.
     * Only dynamic containers are supported.
     * Prints "bWVzc2FnZQ==".
     */
    std::cout << milo::primitive::codec::encode<codec_type, std::string>(message) << "\n";
    
    return 0;
}
