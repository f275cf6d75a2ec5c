// Console stand-in: messages are discarded, arguments are still evaluated.
#pragma once
#include <cstdio>
#include <iterator>
#include <string>
#include <string_view>
#include <type_traits>
namespace fmt {
using string_view = std::string_view;
struct any_format
{
    constexpr any_format(char const*) {}
    constexpr any_format(std::string_view) {}
    any_format(std::string const&) {}
};
template<typename... Args>
using format_string = any_format;
inline any_format runtime(std::string_view s) { return s; }
template<typename... Args>
void println(any_format, Args const&...)
{}
template<typename... Args>
void println(std::FILE*, any_format, Args const&...)
{}
template<typename... Args>
void print(any_format, Args const&...)
{}
template<typename... Args>
void print(std::FILE*, any_format, Args const&...)
{}
template<typename... Args>
std::string format(any_format, Args const&...)
{
    return "text";
}
}  // namespace fmt
