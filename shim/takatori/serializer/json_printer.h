#pragma once
#include <cstdio>
#include <iomanip>
#include <vector>
#include "object_acceptor.h"
namespace takatori::serializer {
class json_printer : public object_acceptor {
public:
    explicit json_printer(std::ostream& out) noexcept : out_ { out } {}
    void string(std::string_view v) override { value(); quote(v); }
    void integer(std::int64_t v) override { value(); out_ << v; }
    void unsigned_integer(std::uint64_t v) override { value(); out_ << v; }
    void real(double v) override { value(); out_ << v; }
    void boolean(bool v) override { value(); out_ << (v ? "true" : "false"); }
    void pointer(void const*) override { value(); out_ << "\"(pointer)\""; }
    void struct_begin() override { value(); out_ << "{"; stack_.push_back({ kind::object, 0 }); }
    void struct_end() override { stack_.pop_back(); out_ << "}"; }
    void property_begin(std::string_view name) override {
        if (!stack_.empty() && stack_.back().n++ > 0) out_ << ",";
        quote(name); out_ << ":"; stack_.push_back({ kind::property, 0 });
    }
    void property_end() override { if (stack_.back().n == 0) out_ << "null"; stack_.pop_back(); }
    void array_begin() override { value(); out_ << "["; stack_.push_back({ kind::array, 0 }); }
    void array_end() override { stack_.pop_back(); out_ << "]"; }
private:
    enum class kind { object, array, property };
    struct frame { kind k; std::size_t n; };
    std::ostream& out_;
    std::vector<frame> stack_ {};
    void value() {
        if (stack_.empty()) return;
        if (stack_.back().n++ > 0) out_ << ",";
    }
    void quote(std::string_view v) {
        out_ << '"';
        for (char ch : v) {
            auto c = static_cast<unsigned char>(ch);
            if (c == '"' || c == '\\') { out_ << '\\' << ch; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); out_ << b; }
            else { out_ << ch; }
        }
        out_ << '"';
    }
};
} // namespace takatori::serializer
