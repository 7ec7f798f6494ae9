// Stand-in of takatori::relation: the dataflow graph of relational operators.
#pragma once
#include <unordered_map>
#include "../scalar/shim_scalars.h"
namespace takatori::relation {
SHIM_ENUM(expression_kind, find, scan, join_find, join_scan, apply, project, filter, buffer, emit, write, values, difference, flatten, intersection,
    join_relation, limit_relation, aggregate_relation, distinct_relation, union_relation, escape, extension)
SHIM_ENUM(set_quantifier, all, distinct)
SHIM_ENUM(sort_direction, ascendant, descendant)
SHIM_ENUM(join_kind, inner, left_outer, left_outer_at_most_one, full_outer, semi, anti)
SHIM_ENUM(apply_kind, cross, outer)
SHIM_ENUM(write_kind, insert, insert_skip, insert_overwrite, update, delete_)
SHIM_ENUM(endpoint_kind, unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive)

class expression;
template<bool Input> class port {
public:
    using opposite_type = port<!Input>;
    port(expression& owner, std::size_t index) noexcept : owner_ { std::addressof(owner) }, index_ { index } {}
    port(port const&) = delete; port& operator=(port const&) = delete;
    port(port&& o) noexcept : owner_ { o.owner_ }, index_ { o.index_ } { if (auto* p = o.peer_) { o.disconnect(); bind(*p); } }
    port& operator=(port&&) = delete;
    ~port() { disconnect(); }
    [[nodiscard]] std::size_t index() const noexcept { return index_; }
    [[nodiscard]] expression& owner() noexcept { return *owner_; }
    [[nodiscard]] expression const& owner() const noexcept { return *owner_; }
    [[nodiscard]] ::takatori::util::optional_ptr<opposite_type> opposite() noexcept { return ::takatori::util::optional_ptr<opposite_type> { peer_ }; }
    [[nodiscard]] ::takatori::util::optional_ptr<opposite_type const> opposite() const noexcept { return ::takatori::util::optional_ptr<opposite_type const> { peer_ }; }
    port& connect_to(opposite_type& o) {
        if (peer_ == &o) return *this;
        if (peer_ || o.peer_) ::takatori::util::throw_exception(std::domain_error("the port is already connected"));
        bind(o); return *this;
    }
    port& reconnect_to(opposite_type& o) { disconnect(); o.disconnect(); bind(o); return *this; }
    bool disconnect_from(opposite_type& o) noexcept { if (peer_ != &o) return false; disconnect(); return true; }
    bool disconnect_all() noexcept { bool r = peer_ != nullptr; disconnect(); return r; }
private:
    friend opposite_type;
    expression* owner_; std::size_t index_; opposite_type* peer_ {};
    void bind(opposite_type& o) noexcept { peer_ = &o; o.peer_ = this; }
    void disconnect() noexcept { if (peer_) { peer_->peer_ = nullptr; peer_ = nullptr; } }
};
using input_port = port<true>;
using output_port = port<false>;
inline input_port& operator<<(input_port& down, output_port& up) { return down.connect_to(up); }
inline output_port& operator>>(output_port& up, input_port& down) { return up.connect_to(down); }

class expression {
public:
    using input_port_type = input_port;
    using output_port_type = output_port;
    expression(std::size_t in, std::size_t out) { make(in, out); }
    expression(expression const& o) : region_ { o.region_ } { make(o.in_.size(), o.out_.size()); }
    expression(expression&& o) : region_ { o.region_ } { make(o.in_.size(), o.out_.size()); } // NOLINT: ports stay with the original
    expression& operator=(expression const&) = delete;
    virtual ~expression() = default;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] virtual expression* clone() const& = 0;
    [[nodiscard]] virtual expression* clone() && = 0;
    [[nodiscard]] ::takatori::document::region& region() noexcept { return region_; }
    [[nodiscard]] ::takatori::document::region const& region() const noexcept { return region_; }
    [[nodiscard]] ::takatori::util::sequence_view<input_port> input_ports() noexcept { return { in_.data(), in_.size() }; }
    [[nodiscard]] ::takatori::util::sequence_view<input_port const> input_ports() const noexcept { return { in_.data(), in_.size() }; }
    [[nodiscard]] ::takatori::util::sequence_view<output_port> output_ports() noexcept { return { out_.data(), out_.size() }; }
    [[nodiscard]] ::takatori::util::sequence_view<output_port const> output_ports() const noexcept { return { out_.data(), out_.size() }; }
    friend bool operator==(expression const& a, expression const& b) { return &a == &b || (a.kind() == b.kind() && a.equals(b)); }
    friend bool operator!=(expression const& a, expression const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, expression const& v) { return v.print(out); }
protected:
    [[nodiscard]] virtual bool equals(expression const&) const = 0;
    virtual std::ostream& print(std::ostream& out) const = 0;
private:
    ::takatori::document::region region_ {};
    std::vector<input_port> in_ {}; std::vector<output_port> out_ {};
    void make(std::size_t in, std::size_t out) {
        in_.reserve(in); out_.reserve(out);
        for (std::size_t i = 0; i < in; ++i) in_.emplace_back(*this, i);
        for (std::size_t i = 0; i < out; ++i) out_.emplace_back(*this, i);
    }
};
template<expression_kind K, std::size_t In, std::size_t Out> class node : public expression {
public:
    static constexpr expression_kind tag = K;
    node() : expression { In, Out } {}
    [[nodiscard]] expression_kind kind() const noexcept override { return K; }
    [[nodiscard]] input_port& input() noexcept { static_assert(In == 1); return input_ports()[0]; }
    [[nodiscard]] input_port const& input() const noexcept { static_assert(In == 1); return input_ports()[0]; }
    [[nodiscard]] output_port& output() noexcept { static_assert(Out == 1); return output_ports()[0]; }
    [[nodiscard]] output_port const& output() const noexcept { static_assert(Out == 1); return output_ports()[0]; }
};
#define SHIM_LEFT_RIGHT \
    [[nodiscard]] ::takatori::relation::input_port& left() noexcept { return input_ports()[0]; } \
    [[nodiscard]] ::takatori::relation::input_port const& left() const noexcept { return input_ports()[0]; } \
    [[nodiscard]] ::takatori::relation::input_port& right() noexcept { return input_ports()[1]; } \
    [[nodiscard]] ::takatori::relation::input_port const& right() const noexcept { return input_ports()[1]; }
#define SHIM_FIELD(T, name) \
    [[nodiscard]] T& name() noexcept { return name##_; } \
    [[nodiscard]] T const& name() const noexcept { return name##_; }

class graph_type {
    using store = std::vector<std::unique_ptr<expression>>;
    template<bool C> struct iter {
        using iterator_category = std::forward_iterator_tag; using value_type = expression; using difference_type = std::ptrdiff_t;
        using reference = std::conditional_t<C, expression const&, expression&>; using pointer = std::conditional_t<C, expression const*, expression*>;
        typename store::const_iterator it;
        reference operator*() const { return **it; } pointer operator->() const { return it->get(); }
        iter& operator++() { ++it; return *this; } iter operator++(int) { auto r = *this; ++it; return r; }
        friend bool operator==(iter a, iter b) { return a.it == b.it; } friend bool operator!=(iter a, iter b) { return a.it != b.it; }
    };
public:
    using iterator = iter<false>; using const_iterator = iter<true>;
    graph_type() = default;
    graph_type(graph_type const&) = delete; graph_type& operator=(graph_type const&) = delete;
    graph_type(graph_type&&) noexcept = default; graph_type& operator=(graph_type&&) noexcept = default;
    ~graph_type() = default;
    [[nodiscard]] bool empty() const noexcept { return e_.empty(); }
    [[nodiscard]] std::size_t size() const noexcept { return e_.size(); }
    [[nodiscard]] iterator begin() noexcept { return { e_.begin() }; } [[nodiscard]] iterator end() noexcept { return { e_.end() }; }
    [[nodiscard]] const_iterator begin() const noexcept { return { e_.begin() }; } [[nodiscard]] const_iterator end() const noexcept { return { e_.end() }; }
    [[nodiscard]] bool contains(expression const& e) const noexcept { for (auto&& p : e_) if (p.get() == &e) return true; return false; }
    template<class T> T& insert(std::unique_ptr<T> p) { auto& r = *p; e_.emplace_back(std::move(p)); return r; }
    template<class T, class = std::enable_if_t<std::is_base_of_v<expression, std::remove_reference_t<T>>>>
    auto& insert(T&& v) { return insert(::takatori::util::clone_unique(std::forward<T>(v))); }
    template<class T, class... A> T& emplace(A&&... a) { return insert(std::make_unique<T>(std::forward<A>(a)...)); }
    bool erase(expression const& e) noexcept { return release(e) != nullptr; }
    bool remove(expression const& e) noexcept { return erase(e); }
    std::unique_ptr<expression> release(expression const& e) noexcept {
        for (auto it = e_.begin(); it != e_.end(); ++it) if (it->get() == &e) { auto r = std::move(*it); e_.erase(it); return r; }
        return {};
    }
    void clear() noexcept { e_.clear(); }
    void merge(graph_type&& o) { for (auto&& p : o.e_) e_.emplace_back(std::move(p)); o.e_.clear(); }
private:
    store e_ {};
};
inline void merge_into(graph_type&& source, graph_type& destination) { destination.merge(std::move(source)); }
inline void merge_into(graph_type const& source, graph_type& destination) {
    std::unordered_map<expression const*, expression*> map;
    for (auto&& e : source) map[&e] = &destination.insert(::takatori::util::clone_unique(e));
    for (auto&& e : source) for (auto&& p : e.output_ports()) if (auto o = p.opposite()) {
        auto it = map.find(&o->owner());
        if (it != map.end()) map[&e]->output_ports()[p.index()].connect_to(it->second->input_ports()[o->index()]);
    }
}
inline void release(graph_type& g) noexcept { g.clear(); }
inline std::ostream& operator<<(std::ostream& out, graph_type const& g) { out << "graph("; for (auto&& e : g) out << e << "; "; return out << ")"; }

namespace details {
using variable = ::takatori::descriptor::variable;
template<class Tag> class mapping {
public:
    mapping(variable source, variable destination) noexcept : source_ { std::move(source) }, destination_ { std::move(destination) } {}
    SHIM_FIELD(variable, source) SHIM_FIELD(variable, destination)
    friend bool operator==(mapping const& a, mapping const& b) { return a.source_ == b.source_ && a.destination_ == b.destination_; }
    friend bool operator!=(mapping const& a, mapping const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, mapping const& v) { return out << v.source_ << "->" << v.destination_; }
private:
    variable source_, destination_;
};
struct read_tag; struct write_tag;
// a key of a range: the variable bound to the value
class search_key {
public:
    search_key(::takatori::descriptor::variable v, ::takatori::scalar::child value) noexcept : variable_ { std::move(v) }, value_ { std::move(value) } {}
    SHIM_FIELD(::takatori::descriptor::variable, variable) SHIM_CHILD(value)
    friend bool operator==(search_key const& a, search_key const& b) { return a.variable_ == b.variable_ && a.value_ == b.value_; }
    friend std::ostream& operator<<(std::ostream& out, search_key const& v) { return out << v.variable_ << "=" << v.value_; }
private:
    ::takatori::descriptor::variable variable_; ::takatori::scalar::child value_;
};
class range_endpoint {
public:
    using key = search_key; using kind_type = endpoint_kind;
    range_endpoint() = default;
    range_endpoint(std::vector<key> keys, endpoint_kind k) noexcept : keys_ { std::move(keys) }, kind_ { k } {}
    [[nodiscard]] endpoint_kind kind() const noexcept { return kind_; }
    SHIM_FIELD(std::vector<key>, keys)
    [[nodiscard]] explicit operator bool() const noexcept { return kind_ != endpoint_kind::unbound; }
    friend bool operator==(range_endpoint const& a, range_endpoint const& b) { return a.kind_ == b.kind_ && a.keys_ == b.keys_; }
    friend bool operator!=(range_endpoint const& a, range_endpoint const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, range_endpoint const& v) { return out << v.kind_; }
private:
    std::vector<key> keys_ {}; endpoint_kind kind_ { endpoint_kind::unbound };
};
class emit_column {
public:
    emit_column(variable source, std::optional<std::string> name = {}) noexcept : source_ { std::move(source) }, name_ { std::move(name) } {} // NOLINT
    SHIM_FIELD(variable, source) SHIM_FIELD(std::optional<std::string>, name)
    friend bool operator==(emit_column const& a, emit_column const& b) { return a.source_ == b.source_ && a.name_ == b.name_; }
    friend std::ostream& operator<<(std::ostream& out, emit_column const& v) { out << v.source_; if (v.name_) out << " AS " << *v.name_; return out; }
private:
    variable source_; std::optional<std::string> name_;
};
class project_column {
public:
    project_column(::takatori::descriptor::variable v, ::takatori::scalar::child value) noexcept : variable_ { std::move(v) }, value_ { std::move(value) } {}
    project_column(::takatori::scalar::child value, ::takatori::descriptor::variable v) noexcept : variable_ { std::move(v) }, value_ { std::move(value) } {}
    SHIM_FIELD(::takatori::descriptor::variable, variable) SHIM_CHILD(value)
    friend bool operator==(project_column const& a, project_column const& b) { return a.variable_ == b.variable_ && a.value_ == b.value_; }
    friend std::ostream& operator<<(std::ostream& out, project_column const& v) { return out << v.variable_ << "=" << v.value_; }
private:
    ::takatori::descriptor::variable variable_; ::takatori::scalar::child value_;
};
class values_row {
public:
    using element_vector = ::takatori::util::reference_vector<::takatori::scalar::expression>;
    explicit values_row(element_vector e) noexcept : elements_ { std::move(e) } {}
    values_row(std::initializer_list<::takatori::util::rvalue_reference_wrapper<::takatori::scalar::expression>> l) : elements_ { l } {}
    SHIM_FIELD(element_vector, elements)
    friend bool operator==(values_row const& a, values_row const& b) { return a.elements_ == b.elements_; }
    friend std::ostream& operator<<(std::ostream& out, values_row const& v) { return out << v.elements_; }
private:
    element_vector elements_;
};
class apply_column {
public:
    apply_column(std::size_t position, ::takatori::descriptor::variable v) noexcept : position_ { position }, variable_ { std::move(v) } {}
    SHIM_FIELD(std::size_t, position) SHIM_FIELD(::takatori::descriptor::variable, variable)
    friend bool operator==(apply_column const& a, apply_column const& b) { return a.position_ == b.position_ && a.variable_ == b.variable_; }
    friend std::ostream& operator<<(std::ostream& out, apply_column const& v) { return out << v.variable_ << "=#" << v.position_; }
private:
    std::size_t position_; ::takatori::descriptor::variable variable_;
};
class sort_key {
public:
    sort_key(::takatori::descriptor::variable v, sort_direction d = sort_direction::ascendant) noexcept : variable_ { std::move(v) }, direction_ { d } {} // NOLINT
    SHIM_FIELD(::takatori::descriptor::variable, variable) SHIM_FIELD(sort_direction, direction)
    friend bool operator==(sort_key const& a, sort_key const& b) { return a.variable_ == b.variable_ && a.direction_ == b.direction_; }
    friend std::ostream& operator<<(std::ostream& out, sort_key const& v) { return out << v.variable_ << " " << v.direction_; }
private:
    ::takatori::descriptor::variable variable_; sort_direction direction_;
};
class union_mapping {
public:
    union_mapping(std::optional<variable> l, std::optional<variable> r, variable d) noexcept : left_ { std::move(l) }, right_ { std::move(r) }, destination_ { std::move(d) } {}
    SHIM_FIELD(std::optional<variable>, left) SHIM_FIELD(std::optional<variable>, right) SHIM_FIELD(variable, destination)
    friend bool operator==(union_mapping const& a, union_mapping const& b) { return a.left_ == b.left_ && a.right_ == b.right_ && a.destination_ == b.destination_; }
    friend std::ostream& operator<<(std::ostream& out, union_mapping const& v) {
        if (v.left_) { out << *v.left_; } out << "|"; if (v.right_) { out << *v.right_; } return out << "->" << v.destination_;
    }
private:
    std::optional<variable> left_, right_; variable destination_;
};
class key_pair {
public:
    key_pair(variable l, variable r) noexcept : left_ { std::move(l) }, right_ { std::move(r) } {}
    SHIM_FIELD(variable, left) SHIM_FIELD(variable, right)
    friend bool operator==(key_pair const& a, key_pair const& b) { return a.left_ == b.left_ && a.right_ == b.right_; }
    friend std::ostream& operator<<(std::ostream& out, key_pair const& v) { return out << v.left_ << "|" << v.right_; }
private:
    variable left_, right_;
};
class aggregate_element {
public:
    aggregate_element(::takatori::descriptor::aggregate_function f, std::vector<variable> a, variable d) noexcept
        : function_ { std::move(f) }, arguments_ { std::move(a) }, destination_ { std::move(d) } {}
    SHIM_FIELD(::takatori::descriptor::aggregate_function, function) SHIM_FIELD(std::vector<variable>, arguments) SHIM_FIELD(variable, destination)
    friend bool operator==(aggregate_element const& a, aggregate_element const& b) { return a.function_ == b.function_ && a.arguments_ == b.arguments_ && a.destination_ == b.destination_; }
    friend std::ostream& operator<<(std::ostream& out, aggregate_element const& v) { return out << v.destination_ << "=" << v.function_ << ::takatori::util::print_support { v.arguments_ }; }
private:
    ::takatori::descriptor::aggregate_function function_; std::vector<variable> arguments_; variable destination_;
};
} // namespace details
#define SHIM_REL_EQ(T, ...) [[nodiscard]] bool equals(::takatori::relation::expression const& o) const override { auto& b = static_cast<T const&>(o); (void) b; return __VA_ARGS__; }
#define SHIM_REL_PRINT(...) std::ostream& print(std::ostream& out) const override { return out << __VA_ARGS__ << ")"; }

class scan : public node<expression_kind::scan, 0, 1> {
public:
    SHIM_CLONE(scan)
    using column = details::mapping<details::read_tag>; using endpoint = details::range_endpoint; using key = endpoint::key;
    scan(::takatori::descriptor::relation source, std::vector<column> columns, endpoint lower = {}, endpoint upper = {}, std::optional<std::size_t> limit = {}) noexcept
        : source_ { std::move(source) }, columns_ { std::move(columns) }, lower_ { std::move(lower) }, upper_ { std::move(upper) }, limit_ { limit } {}
    SHIM_FIELD(::takatori::descriptor::relation, source) SHIM_FIELD(std::vector<column>, columns) SHIM_FIELD(endpoint, lower) SHIM_FIELD(endpoint, upper)
    SHIM_FIELD(std::optional<std::size_t>, limit)
protected:
    SHIM_REL_EQ(scan, source_ == b.source_ && columns_ == b.columns_ && lower_ == b.lower_ && upper_ == b.upper_ && limit_ == b.limit_)
    SHIM_REL_PRINT("scan(" << source_ << ", " << ::takatori::util::print_support { columns_ })
private:
    ::takatori::descriptor::relation source_; std::vector<column> columns_; endpoint lower_, upper_; std::optional<std::size_t> limit_;
};
class values : public node<expression_kind::values, 0, 1> {
public:
    SHIM_CLONE(values)
    using column = details::variable; using row = details::values_row;
    values(std::vector<column> columns, std::vector<row> rows) noexcept : columns_ { std::move(columns) }, rows_ { std::move(rows) } {}
    SHIM_FIELD(std::vector<column>, columns) SHIM_FIELD(std::vector<row>, rows)
protected:
    SHIM_REL_EQ(values, columns_ == b.columns_ && rows_ == b.rows_)
    SHIM_REL_PRINT("values(" << ::takatori::util::print_support { columns_ } << ", " << ::takatori::util::print_support { rows_ })
private:
    std::vector<column> columns_; std::vector<row> rows_;
};
class filter : public node<expression_kind::filter, 1, 1> {
public:
    SHIM_CLONE(filter)
    explicit filter(::takatori::scalar::child c) noexcept : condition_ { std::move(c) } {}
    SHIM_CHILD(condition)
protected:
    SHIM_REL_EQ(filter, condition_ == b.condition_)
    SHIM_REL_PRINT("filter(" << condition_)
private:
    ::takatori::scalar::child condition_;
};
class project : public node<expression_kind::project, 1, 1> {
public:
    SHIM_CLONE(project)
    using column = details::project_column;
    explicit project(std::vector<column> columns) noexcept : columns_ { std::move(columns) } {}
    SHIM_FIELD(std::vector<column>, columns)
protected:
    SHIM_REL_EQ(project, columns_ == b.columns_)
    SHIM_REL_PRINT("project(" << ::takatori::util::print_support { columns_ })
private:
    std::vector<column> columns_;
};
class apply : public node<expression_kind::apply, 1, 1> {
public:
    SHIM_CLONE(apply)
    using column_type = details::apply_column; using operator_kind_type = apply_kind;
    using argument_vector = ::takatori::util::reference_vector<::takatori::scalar::expression>;
    apply(apply_kind k, ::takatori::descriptor::function f, argument_vector a, std::vector<column_type> c) noexcept
        : operator_kind_ { k }, function_ { std::move(f) }, arguments_ { std::move(a) }, columns_ { std::move(c) } {}
    SHIM_FIELD(apply_kind, operator_kind) SHIM_FIELD(::takatori::descriptor::function, function) SHIM_FIELD(argument_vector, arguments) SHIM_FIELD(std::vector<column_type>, columns)
protected:
    SHIM_REL_EQ(apply, operator_kind_ == b.operator_kind_ && function_ == b.function_ && arguments_ == b.arguments_ && columns_ == b.columns_)
    SHIM_REL_PRINT("apply(" << operator_kind_ << ", " << function_ << arguments_ << ", " << ::takatori::util::print_support { columns_ })
private:
    apply_kind operator_kind_; ::takatori::descriptor::function function_; argument_vector arguments_; std::vector<column_type> columns_;
};
class emit : public node<expression_kind::emit, 1, 0> {
public:
    SHIM_CLONE(emit)
    using column = details::emit_column;
    explicit emit(std::vector<column> columns) noexcept : columns_ { std::move(columns) } {}
    SHIM_FIELD(std::vector<column>, columns)
protected:
    SHIM_REL_EQ(emit, columns_ == b.columns_)
    SHIM_REL_PRINT("emit(" << ::takatori::util::print_support { columns_ })
private:
    std::vector<column> columns_;
};
class write : public node<expression_kind::write, 1, 0> {
public:
    SHIM_CLONE(write)
    using column = details::mapping<details::write_tag>; using key = column; using operator_kind_type = write_kind;
    write(write_kind k, ::takatori::descriptor::relation d, std::vector<key> keys, std::vector<column> columns) noexcept
        : operator_kind_ { k }, destination_ { std::move(d) }, keys_ { std::move(keys) }, columns_ { std::move(columns) } {}
    SHIM_FIELD(write_kind, operator_kind) SHIM_FIELD(::takatori::descriptor::relation, destination) SHIM_FIELD(std::vector<key>, keys) SHIM_FIELD(std::vector<column>, columns)
protected:
    SHIM_REL_EQ(write, operator_kind_ == b.operator_kind_ && destination_ == b.destination_ && keys_ == b.keys_ && columns_ == b.columns_)
    SHIM_REL_PRINT("write(" << operator_kind_ << ", " << destination_ << ", " << ::takatori::util::print_support { keys_ } << ", " << ::takatori::util::print_support { columns_ })
private:
    write_kind operator_kind_; ::takatori::descriptor::relation destination_; std::vector<key> keys_; std::vector<column> columns_;
};
namespace intermediate {
class join : public node<expression_kind::join_relation, 2, 1> {
public:
    SHIM_CLONE(join)
    using endpoint = ::takatori::relation::details::range_endpoint; using key = endpoint::key; using operator_kind_type = join_kind;
    explicit join(join_kind k, ::takatori::scalar::child c = {}) noexcept : operator_kind_ { k }, condition_ { std::move(c) } {}
    join(join_kind k, endpoint l, endpoint u, ::takatori::scalar::child c) noexcept : operator_kind_ { k }, lower_ { std::move(l) }, upper_ { std::move(u) }, condition_ { std::move(c) } {}
    SHIM_FIELD(join_kind, operator_kind) SHIM_FIELD(endpoint, lower) SHIM_FIELD(endpoint, upper) SHIM_LEFT_RIGHT
    [[nodiscard]] ::takatori::util::optional_ptr<::takatori::scalar::expression> condition() noexcept { return ::takatori::util::optional_ptr<::takatori::scalar::expression> { condition_.get() }; }
    [[nodiscard]] ::takatori::util::optional_ptr<::takatori::scalar::expression const> condition() const noexcept { return ::takatori::util::optional_ptr<::takatori::scalar::expression const> { condition_.get() }; }
    [[nodiscard]] ::takatori::util::ownership_reference<::takatori::scalar::expression> ownership_condition() { return ::takatori::util::ownership_reference<::takatori::scalar::expression> { condition_.ptr() }; }
protected:
    SHIM_REL_EQ(join, operator_kind_ == b.operator_kind_ && condition_ == b.condition_ && lower_ == b.lower_ && upper_ == b.upper_)
    SHIM_REL_PRINT("join(" << operator_kind_ << ", " << condition_)
private:
    join_kind operator_kind_; endpoint lower_ {}, upper_ {}; ::takatori::scalar::child condition_;
};
class distinct : public node<expression_kind::distinct_relation, 1, 1> {
public:
    SHIM_CLONE(distinct)
    using key = ::takatori::descriptor::variable;
    explicit distinct(std::vector<key> k) noexcept : group_keys_ { std::move(k) } {}
    SHIM_FIELD(std::vector<key>, group_keys)
protected:
    SHIM_REL_EQ(distinct, group_keys_ == b.group_keys_)
    SHIM_REL_PRINT("distinct(" << ::takatori::util::print_support { group_keys_ })
private:
    std::vector<key> group_keys_;
};
class limit : public node<expression_kind::limit_relation, 1, 1> {
public:
    SHIM_CLONE(limit)
    using sort_key = ::takatori::relation::details::sort_key;
    limit(std::optional<std::size_t> n, std::vector<::takatori::descriptor::variable> g, std::vector<sort_key> s) noexcept
        : count_ { n }, group_keys_ { std::move(g) }, sort_keys_ { std::move(s) } {}
    [[nodiscard]] std::optional<std::size_t> const& count() const noexcept { return count_; }
    limit& count(std::optional<std::size_t> n) noexcept { count_ = n; return *this; }
    SHIM_FIELD(std::vector<::takatori::descriptor::variable>, group_keys) SHIM_FIELD(std::vector<sort_key>, sort_keys)
protected:
    SHIM_REL_EQ(limit, count_ == b.count_ && group_keys_ == b.group_keys_ && sort_keys_ == b.sort_keys_)
    SHIM_REL_PRINT("limit(" << ::takatori::shim::opt_print<std::optional<std::size_t>> { count_ } << ", " << ::takatori::util::print_support { sort_keys_ })
private:
    std::optional<std::size_t> count_; std::vector<::takatori::descriptor::variable> group_keys_; std::vector<sort_key> sort_keys_;
};
class aggregate : public node<expression_kind::aggregate_relation, 1, 1> {
public:
    SHIM_CLONE(aggregate)
    using column = ::takatori::relation::details::aggregate_element;
    aggregate(std::vector<::takatori::descriptor::variable> g, std::vector<column> c) noexcept : group_keys_ { std::move(g) }, columns_ { std::move(c) } {}
    SHIM_FIELD(std::vector<::takatori::descriptor::variable>, group_keys) SHIM_FIELD(std::vector<column>, columns)
protected:
    SHIM_REL_EQ(aggregate, group_keys_ == b.group_keys_ && columns_ == b.columns_)
    SHIM_REL_PRINT("aggregate(" << ::takatori::util::print_support { group_keys_ } << ", " << ::takatori::util::print_support { columns_ })
private:
    std::vector<::takatori::descriptor::variable> group_keys_; std::vector<column> columns_;
};
class union_ : public node<expression_kind::union_relation, 2, 1> {
public:
    SHIM_CLONE(union_)
    using mapping = ::takatori::relation::details::union_mapping; using quantifier_kind = set_quantifier;
    union_(set_quantifier q, std::vector<mapping> m) noexcept : quantifier_ { q }, mappings_ { std::move(m) } {}
    SHIM_FIELD(set_quantifier, quantifier) SHIM_FIELD(std::vector<mapping>, mappings) SHIM_LEFT_RIGHT
protected:
    SHIM_REL_EQ(union_, quantifier_ == b.quantifier_ && mappings_ == b.mappings_)
    SHIM_REL_PRINT("union(" << quantifier_ << ", " << ::takatori::util::print_support { mappings_ })
private:
    set_quantifier quantifier_; std::vector<mapping> mappings_;
};
template<expression_kind K> class set_operation : public node<K, 2, 1> {
public:
    SHIM_CLONE(set_operation)
    using group_key_pair = ::takatori::relation::details::key_pair;
    set_operation(set_quantifier q, std::vector<group_key_pair> m) noexcept : quantifier_ { q }, group_key_pairs_ { std::move(m) } {}
    SHIM_FIELD(set_quantifier, quantifier) SHIM_FIELD(std::vector<group_key_pair>, group_key_pairs)
    [[nodiscard]] ::takatori::relation::input_port& left() noexcept { return this->input_ports()[0]; }
    [[nodiscard]] ::takatori::relation::input_port const& left() const noexcept { return this->input_ports()[0]; }
    [[nodiscard]] ::takatori::relation::input_port& right() noexcept { return this->input_ports()[1]; }
    [[nodiscard]] ::takatori::relation::input_port const& right() const noexcept { return this->input_ports()[1]; }
protected:
    SHIM_REL_EQ(set_operation, quantifier_ == b.quantifier_ && group_key_pairs_ == b.group_key_pairs_)
    SHIM_REL_PRINT(K << "(" << quantifier_ << ", " << ::takatori::util::print_support { group_key_pairs_ })
private:
    set_quantifier quantifier_; std::vector<group_key_pair> group_key_pairs_;
};
using difference = set_operation<expression_kind::difference>;
using intersection = set_operation<expression_kind::intersection>;
} // namespace intermediate
class extension : public node<expression_kind::extension, 0, 1> {
public:
    using extension_id_type = std::size_t;
    [[nodiscard]] virtual extension_id_type extension_id() const noexcept = 0;
    [[nodiscard]] extension* clone() const& override = 0;
    [[nodiscard]] extension* clone() && override = 0;
};
} // namespace takatori::relation
