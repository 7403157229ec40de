// declarations only: lets clang type-check the sources that use cppcodec (never compiled here)
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace cppcodec
{
    struct base64_rfc4648
    {
        template <class T>
        static std::string encode(const T &data);
        template <class T>
        static std::string encode(const T *data, size_t n);
        template <class T>
        static std::vector<uint8_t> decode(const T &data);
        template <class R, class T>
        static void decode(R &out, const T &data);
    };
}
