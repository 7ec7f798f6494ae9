#pragma once
#include "document.h"
namespace takatori::document {
class region {
public:
    constexpr region() noexcept = default;
    region(::takatori::document::document const& source, std::size_t begin, std::size_t end) noexcept
        : source_ { &source }, begin_ { begin }, end_ { end } {}
    [[nodiscard]] bool is_valid() const noexcept { return source_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_valid(); }
    [[nodiscard]] ::takatori::document::document const& source() const { return *source_; }
    [[nodiscard]] std::size_t begin() const noexcept { return begin_; }
    [[nodiscard]] std::size_t end() const noexcept { return end_; }
    [[nodiscard]] std::size_t size() const noexcept { return end_ - begin_; }
    [[nodiscard]] document_position first_position() const { return source_ ? source_->position(begin_) : document_position {}; }
    [[nodiscard]] std::string_view contents() const { return source_ ? source_->contents(begin_, end_ - begin_) : std::string_view {}; }
    friend bool operator==(region const& a, region const& b) noexcept { return a.source_ == b.source_ && a.begin_ == b.begin_ && a.end_ == b.end_; }
    friend bool operator!=(region const& a, region const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, region const& v) {
        if (v.source_ == nullptr) return out << "region()";
        return out << "region(begin=" << v.begin_ << ", end=" << v.end_ << ")";
    }
private:
    ::takatori::document::document const* source_ {};
    std::size_t begin_ {}; std::size_t end_ {};
};
} // namespace takatori::document
