#pragma once
#include <ostream>
#include <sstream>
#include <string>
namespace takatori::util {
namespace impl { struct to_string_tag {}; }
class string_builder {
public:
    static constexpr impl::to_string_tag to_string {};
    std::string operator<<(impl::to_string_tag) { return buf_.str(); }
    template<class T> string_builder& append(T const& v) { buf_ << v; return *this; }
    std::ostringstream& stream() { return buf_; }
    [[nodiscard]] std::string str() const { return buf_.str(); }
    string_builder& operator<<(std::ostream& (*f)(std::ostream&)) { f(buf_); return *this; }
    string_builder& operator<<(std::ios& (*f)(std::ios&)) { f(buf_); return *this; }
    string_builder& operator<<(std::ios_base& (*f)(std::ios_base&)) { f(buf_); return *this; }
    template<class T> string_builder& operator<<(T const& v) { buf_ << v; return *this; }
private:
    std::ostringstream buf_ {};
};
class debug_string_builder {
public:
    static constexpr impl::to_string_tag to_string {};
    std::string operator<<(impl::to_string_tag) { return {}; }
    template<class T> debug_string_builder& operator<<(T const&) { return *this; }
};
} // namespace takatori::util
