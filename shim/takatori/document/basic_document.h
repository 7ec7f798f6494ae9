#pragma once
#include <algorithm>
#include <stdexcept>
#include <vector>
#include "document.h"
#include "region.h"
#include "../util/exception.h"
namespace takatori::document {
class basic_document : public document {
public:
    basic_document(std::string location, std::string contents) : location_ { std::move(location) }, contents_ { std::move(contents) } {}
    [[nodiscard]] std::string_view location() const noexcept override { return location_; }
    // same contract as the original: throws std::out_of_range-like error when the range is outside of the document
    [[nodiscard]] std::string_view contents(std::size_t offset, std::size_t size) const override {
        if (offset > contents_.size() || size > contents_.size() - offset) {
            ::takatori::util::throw_exception(std::out_of_range("document range"));
        }
        return std::string_view { contents_ }.substr(offset, size);
    }
    [[nodiscard]] std::size_t size() const noexcept override { return contents_.size(); }
    [[nodiscard]] document_position position(std::size_t offset) const override {
        std::size_t l = 0, c = 0;
        for (std::size_t i = 0; i < offset && i < contents_.size(); ++i) { if (contents_[i] == '\n') { ++l; c = 0; } else { ++c; } }
        return { l, c };
    }
private:
    std::string location_; std::string contents_;
};
} // namespace takatori::document
