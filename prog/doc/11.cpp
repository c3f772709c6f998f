#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare codec alias.
     */
    using codec_type = milo::primitive::codec::base_64<>;
    
    auto message = "bWVzc2FnZQ=="sv;
    auto message_invalid = "bWVzABC$c2FnZQ=="sv;
    auto decoded = std::string();
    
    /*
     * Get the result by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     */
    auto decoded_size = milo::primitive::codec::decode<codec_type>(message, decoded);
    
    /*
     * Prints "message".
     */
    std::cout << decoded << "\n";
    
    /*
     * Get the result by value.
     * When retrieving the result by value, pass the resulting container type as a template parameter.
     * Only dynamic containers are supported.
     * Prints "message".
     */
    std::cout << milo::primitive::codec::decode<codec_type, std::string>(message) << "\n";
    
    try
    {
        /*
         * Get the result by value.
         * When retrieving the result by value, pass the resulting container type as a template parameter.
         * Only dynamic containers are supported.
         * Signalizing error by reference is not supported.
         */
        std::cout << milo::primitive::codec::decode<codec_type, std::string>(message_invalid) << "\n";
    }
    catch (const milo::error& e)
    {
        std::cout << "Expected decoding error.\n";
        return -1;
    }
    
    return 0;
}
