#pragma once
#include <cstddef>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include "../util/maybe_shared_ptr.h"
#include "position.h"
namespace takatori::document {
class document {
public:
    document() = default;
    virtual ~document() = default;
    document(document const&) = delete; document& operator=(document const&) = delete;
    [[nodiscard]] virtual std::string_view location() const noexcept = 0;
    [[nodiscard]] virtual std::string_view contents(std::size_t offset, std::size_t size) const = 0;
    [[nodiscard]] virtual std::size_t size() const noexcept = 0;
    [[nodiscard]] virtual document_position position(std::size_t offset) const = 0;
    friend bool operator==(document const& a, document const& b) noexcept { return &a == &b; }
    friend bool operator!=(document const& a, document const& b) noexcept { return &a != &b; }
    friend std::ostream& operator<<(std::ostream& out, document const& v) { return out << "document(" << v.location() << ")"; }
};
} // namespace takatori::document
