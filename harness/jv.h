// A plain tree model of serialized syntax trees: both the expected trees (built by the generator)
// and the observed ones (collected through the object_acceptor interface) are of this type.
#pragma once

#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include <takatori/serializer/object_acceptor.h>

struct jv {
    enum kind_t { null, boolean, integer, string, array, object } kind { null };
    bool b {};
    std::uint64_t i {};
    std::string s;
    std::vector<jv> a;
    std::vector<std::pair<std::string, jv>> o;
    // source region: in tokens [tb, te) for expected trees, in bytes for observed ones
    long tb { -1 }, te { -1 };

    jv() = default;
    static jv str(std::string_view v) { jv r; r.kind = string; r.s = v; return r; }
    static jv num(std::uint64_t v) { jv r; r.kind = integer; r.i = v; return r; }
    static jv boo(bool v) { jv r; r.kind = boolean; r.b = v; return r; }
    static jv arr() { jv r; r.kind = array; return r; }
    static jv obj(std::string_view node_kind = {}) {
        jv r;
        r.kind = object;
        if (!node_kind.empty()) r.set("node_kind", str(node_kind));
        return r;
    }
    jv& set(std::string_view name, jv v) & {
        o.emplace_back(std::string { name }, std::move(v));
        return *this;
    }
    jv&& set(std::string_view name, jv v) && {
        o.emplace_back(std::string { name }, std::move(v));
        return std::move(*this);
    }
    jv& add(jv v) & { a.push_back(std::move(v)); return *this; }
    explicit operator bool() const { return kind != null; }
    jv const* find(std::string_view name) const {
        for (auto& [k, v] : o) if (k == name) return &v;
        return nullptr;
    }
    jv* find(std::string_view name) {
        for (auto& [k, v] : o) if (k == name) return &v;
        return nullptr;
    }
    std::string text(std::string_view name) const {
        auto* v = find(name);
        return v && v->kind == string ? v->s : std::string {};
    }
};

inline void jv_print(std::string& out, jv const& v, bool regions, int indent = 0) {
    switch (v.kind) {
        case jv::null: out += "null"; break;
        case jv::boolean: out += v.b ? "true" : "false"; break;
        case jv::integer: out += std::to_string(v.i); break;
        case jv::string: out += "'" + v.s + "'"; break;
        case jv::array: {
            out += "[";
            bool first = true;
            for (auto& e : v.a) {
                if (!first) out += ", ";
                jv_print(out, e, regions, indent + 1);
                first = false;
            }
            out += "]";
            break;
        }
        case jv::object: {
            out += "{";
            bool first = true;
            for (auto& [k, e] : v.o) {
                if (e.kind == jv::null) continue;
                if (!first) out += ", ";
                out += k + ": ";
                jv_print(out, e, regions, indent + 1);
                first = false;
            }
            out += "}";
            if (regions) out += "@" + std::to_string(v.tb) + "-" + std::to_string(v.te);
            break;
        }
    }
}

inline std::string jv_text(jv const& v, bool regions = false) {
    std::string s;
    jv_print(s, v, regions);
    return s;
}

// compares two trees; returns an empty string if they are same, or a description of the first
// difference. Properties are compared by name: absent and null properties are identified.
inline std::string jv_diff(jv const& expect, jv const& actual, bool regions, std::string const& path = "$") {
    auto brief = [](jv const& v) {
        auto s = jv_text(v);
        return s.size() > 160 ? s.substr(0, 160) + "..." : s;
    };
    if (expect.kind != actual.kind) {
        return path + ": expected " + brief(expect) + ", but was " + brief(actual);
    }
    switch (expect.kind) {
        case jv::null: return {};
        case jv::boolean: return expect.b == actual.b ? std::string {} : path + ": expected " + brief(expect) + ", but was " + brief(actual);
        case jv::integer: return expect.i == actual.i ? std::string {} : path + ": expected " + brief(expect) + ", but was " + brief(actual);
        case jv::string: return expect.s == actual.s ? std::string {} : path + ": expected " + brief(expect) + ", but was " + brief(actual);
        case jv::array: {
            if (expect.a.size() != actual.a.size()) {
                return path + ": expected " + std::to_string(expect.a.size()) + " elements " + brief(expect) + ", but was " + std::to_string(actual.a.size()) + " elements " + brief(actual);
            }
            for (std::size_t i = 0; i < expect.a.size(); ++i) {
                auto d = jv_diff(expect.a[i], actual.a[i], regions, path + "[" + std::to_string(i) + "]");
                if (!d.empty()) return d;
            }
            return {};
        }
        case jv::object: {
            for (auto& [k, e] : expect.o) {
                auto* f = actual.find(k);
                if (e.kind == jv::null && (!f || f->kind == jv::null)) continue;
                if (!f) return path + "." + k + ": expected " + brief(e) + ", but is absent";
                auto d = jv_diff(e, *f, regions, path + "." + k);
                if (!d.empty()) return d;
            }
            for (auto& [k, f] : actual.o) {
                if (f.kind == jv::null) continue;
                if (!expect.find(k)) return path + "." + k + ": unexpected " + brief(f);
            }
            if (regions && expect.tb >= 0 && (expect.tb != actual.tb || expect.te != actual.te)) {
                return path + ": expected region [" + std::to_string(expect.tb) + "," + std::to_string(expect.te)
                        + ") but was [" + std::to_string(actual.tb) + "," + std::to_string(actual.te) + ") of " + brief(actual);
            }
            return {};
        }
    }
    return {};
}

class jv_acceptor : public ::takatori::serializer::object_acceptor {
public:
    jv root;
    void string(std::string_view value) override { put(jv::str(value)); }
    void integer(std::int64_t value) override { put(jv::num(static_cast<std::uint64_t>(value))); }
    void unsigned_integer(std::uint64_t value) override { put(jv::num(value)); }
    void real(double value) override { put(jv::str(std::to_string(value))); }
    void boolean(bool value) override { put(jv::boo(value)); }
    void pointer(void const*) override { put(jv::str("<pointer>")); }
    void struct_begin() override { stack_.push_back(jv::obj()); }
    void struct_end() override {
        auto v = std::move(stack_.back());
        stack_.pop_back();
        // moves the region property into the node itself
        for (std::size_t i = 0; i < v.o.size(); ++i) {
            if (v.o[i].first == "region") {
                if (auto* b = v.o[i].second.find("begin")) v.tb = static_cast<long>(b->i);
                if (auto* e = v.o[i].second.find("end")) v.te = static_cast<long>(e->i);
                v.o.erase(v.o.begin() + static_cast<long>(i));
                break;
            }
        }
        put(std::move(v));
    }
    void property_begin(std::string_view name) override {
        names_.emplace_back(name);
        stack_.emplace_back(); // null
    }
    void property_end() override {
        auto v = std::move(stack_.back());
        stack_.pop_back();
        auto n = std::move(names_.back());
        names_.pop_back();
        stack_.back().set(n, std::move(v));
    }
    void array_begin() override { stack_.push_back(jv::arr()); }
    void array_end() override {
        auto v = std::move(stack_.back());
        stack_.pop_back();
        put(std::move(v));
    }

private:
    std::vector<jv> stack_;
    std::vector<std::string> names_;
    void put(jv v) {
        if (stack_.empty()) {
            root = std::move(v);
        } else if (stack_.back().kind == jv::array) {
            stack_.back().add(std::move(v));
        } else {
            stack_.back() = std::move(v); // property value slot
        }
    }
};

template<class T>
jv jv_of(T const& element) {
    jv_acceptor acceptor;
    acceptor << element;
    return std::move(acceptor.root);
}
