// Stand-in of takatori::descriptor: opaque handles to declarations and variables.
#pragma once
#include "../impl/object.h"
namespace takatori::descriptor {
enum class variable_entity_kind { table_column, exchange_column, frame_variable, stream_variable, local_variable, external_variable };
inline constexpr std::string_view to_string_view(variable_entity_kind k) noexcept {
    constexpr std::string_view n[] { "table_column", "exchange_column", "frame_variable", "stream_variable", "local_variable", "external_variable" };
    return n[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& out, variable_entity_kind k) { return out << to_string_view(k); }

// the entity behind a variable descriptor: stream and local variables are identified by the entity itself,
// table columns and external variables by their declaration
class variable_entity {
public:
    using kind_type = variable_entity_kind;
    variable_entity(kind_type kind, std::string label) : kind_ { kind }, label_ { std::move(label) } {}
    variable_entity(kind_type kind, std::string label, void const* object, std::shared_ptr<void const> holder)
        : kind_ { kind }, label_ { std::move(label) }, object_ { object }, holder_ { std::move(holder) } {}
    [[nodiscard]] kind_type kind() const noexcept { return kind_; }
    [[nodiscard]] std::string const& label() const noexcept { return label_; }
    [[nodiscard]] void const* object() const noexcept { return object_; }
    [[nodiscard]] std::shared_ptr<void const> const& holder() const noexcept { return holder_; }
    [[nodiscard]] void const* identity() const noexcept { return object_ ? object_ : static_cast<void const*>(this); }
private:
    kind_type kind_; std::string label_; void const* object_ {}; std::shared_ptr<void const> holder_ {};
};
class variable {
public:
    explicit variable(std::shared_ptr<variable_entity const> entity = {}) noexcept : entity_ { std::move(entity) } {}
    [[nodiscard]] variable_entity const& entity() const { return *entity_; }
    [[nodiscard]] std::shared_ptr<variable_entity const> const& shared_entity() const noexcept { return entity_; }
    [[nodiscard]] explicit operator bool() const noexcept { return entity_ != nullptr; }
    [[nodiscard]] ::takatori::document::region& region() noexcept { return region_; }
    [[nodiscard]] ::takatori::document::region const& region() const noexcept { return region_; }
    [[nodiscard]] void const* identity() const noexcept { return entity_ ? entity_->identity() : nullptr; }
    friend bool operator==(variable const& a, variable const& b) noexcept {
        return a.identity() == b.identity() && (!a.entity_ || a.entity_->kind() == b.entity_->kind());
    }
    friend bool operator!=(variable const& a, variable const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, variable const& v) {
        if (!v.entity_) return out << "variable()";
        return out << v.entity_->kind() << "(" << v.entity_->label() << ")";
    }
private:
    std::shared_ptr<variable_entity const> entity_; ::takatori::document::region region_ {};
};
enum class descriptor_kind { relation, function, aggregate_function, schema, storage, declared_type };
template<descriptor_kind K>
class handle {
public:
    static constexpr descriptor_kind tag = K;
    handle() = default;
    handle(void const* object, std::shared_ptr<void const> holder, int what) noexcept : object_ { object }, holder_ { std::move(holder) }, what_ { what } {}
    [[nodiscard]] void const* object() const noexcept { return object_; }
    [[nodiscard]] std::shared_ptr<void const> const& holder() const noexcept { return holder_; }
    [[nodiscard]] int what() const noexcept { return what_; } // which kind of declaration is behind it
    friend bool operator==(handle const& a, handle const& b) noexcept { return a.object_ == b.object_; }
    friend bool operator!=(handle const& a, handle const& b) noexcept { return a.object_ != b.object_; }
    // not the address: checks compare messages between catalogs that only differ in where they live
    friend std::ostream& operator<<(std::ostream& out, handle const& v) { return out << (v.object_ ? "descriptor(...)" : "descriptor()"); }
private:
    void const* object_ {}; std::shared_ptr<void const> holder_ {}; int what_ {};
};
using relation = handle<descriptor_kind::relation>;
using function = handle<descriptor_kind::function>;
using aggregate_function = handle<descriptor_kind::aggregate_function>;
using schema = handle<descriptor_kind::schema>;
using storage = handle<descriptor_kind::storage>;
} // namespace takatori::descriptor
template<> struct std::hash<takatori::descriptor::variable> {
    std::size_t operator()(takatori::descriptor::variable const& v) const noexcept { return std::hash<void const*>{}(v.identity()); }
};
template<takatori::descriptor::descriptor_kind K> struct std::hash<takatori::descriptor::handle<K>> {
    std::size_t operator()(takatori::descriptor::handle<K> const& v) const noexcept { return std::hash<void const*>{}(v.object()); }
};
