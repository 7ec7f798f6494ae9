#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
class finalizer {
public:
    using body_type = std::function<void()>;
    finalizer() = default;
    finalizer(body_type body) : body_ { std::move(body) } {} // NOLINT
    ~finalizer() { operator()(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& other) noexcept : body_ { std::exchange(other.body_, {}) } {}
    finalizer& operator=(finalizer&& other) noexcept { operator()(); body_ = std::exchange(other.body_, {}); return *this; }
    void operator()() { if (body_) { auto b = std::exchange(body_, {}); b(); } }
    bool release() noexcept { bool r = static_cast<bool>(body_); body_ = {}; return r; }
    [[nodiscard]] explicit operator bool() const noexcept { return static_cast<bool>(body_); }
private:
    body_type body_ {};
};
} // namespace takatori::util
