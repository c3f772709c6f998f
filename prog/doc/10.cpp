#include <iostream>
#include <string>
#include <string_view>

#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>

int main()
{
    using namespace std::literals;
    
    /*
     * Declare codec alias via apie wrapper.
     */
    using codec_type = milo::primitive::codec::apie<milo::primitive::codec::base_64<>>;
    
    auto message = "bWVzc2FnZQ=="sv;
    auto message_invalid = "bWVzABC$c2FnZQ=="sv;
    auto decoded = std::string();
    auto error = milo::error();
    
    /*
     * Get the result by reference.
     * A fixed target buffer is supported.
     * Correctly resized if the target container supports resizing.
     * Returns the size of the result, but can be ignored.
     * This can be useful when the target buffer is of a fixed size.
     * Error is cleared on success, set on failure.
     */
    auto decoded_size = codec_type::decode(message, decoded, error);
    
    /*
     * May fail if the value or size of the input is invalid.
     */
    if (error)
    {
        std::cout << "Unexpected decoding error.\n";
        return -1;
    }
    else
    {
        /*
         * Prints "message".
         */
        std::cout << decoded << "\n";
    }
    
    try
    {
        /*
         * When the error parameter is omitted, an exception will be thrown on error.
         */
        codec_type::decode(message_invalid, decoded);
    }
    catch (const milo::error& e)
    {
        /*
         * At this point, the value of the decoded variable may be different.
         */
        std::cout << "Expected decoding error.\n";
    }
    
    try
    {
        /*
         * Get the result by value.
         * When retrieving the result by value, pass the resulting container type as a template parameter.
         * Only dynamic containers are supported.
         * Signalizing error by reference is not supported.
         * Prints "message".
         */
        std::cout << codec_type::decode<std::string>(message) << "\n";
    }
    catch (const milo::error& e)
    {
        std::cout << "Unexpected decoding error.\n";
        return -1;
    }
    
    return 0;
}
