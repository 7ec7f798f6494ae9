#pragma once
#include <cstddef>
#include <ostream>
namespace takatori::document {
class document_position {
public:
    constexpr document_position() noexcept = default;
    constexpr document_position(std::size_t l, std::size_t c) noexcept : line_ { l }, column_ { c } {}
    [[nodiscard]] constexpr std::size_t line() const noexcept { return line_; }
    [[nodiscard]] constexpr std::size_t column() const noexcept { return column_; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return line_ != static_cast<std::size_t>(-1); }
    friend std::ostream& operator<<(std::ostream& out, document_position v) { return out << v.line_ << ":" << v.column_; }
private:
    std::size_t line_ { static_cast<std::size_t>(-1) };
    std::size_t column_ { static_cast<std::size_t>(-1) };
};
using position = document_position;
} // namespace takatori::document
