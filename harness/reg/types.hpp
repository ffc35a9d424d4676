// Component types used by the registry machines, and a type-erased operation table for each of them.
#pragma once
#include <co_ecs/co_ecs.hpp>

#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace rt {

using u64 = std::uint64_t;
using co_ecs::entity;

// ---------------------------------------------------------------- object lifecycle tracking

struct tracker {
    struct slot {
        int type;
        bool moved_from;
    };
    std::unordered_map<const void*, slot> live;
    std::array<std::int64_t, 64> count{};
    std::string violation;
    std::int64_t arm_ctor{ -1 }; // countdown to a throwing construction from a value (-1: off)
    std::int64_t arm_copy{ -1 }; // countdown to a throwing copy construction
    u64 constructed{};

    void reset() {
        live.clear();
        count.fill(0);
        violation.clear();
        arm_ctor = arm_copy = -1;
        constructed = 0;
    }
    void bad(const char* what, int type, const void* p) {
        if (violation.empty()) {
            violation = std::string(what) + " (component type index " + std::to_string(type) + ")";
        }
        (void)p;
    }
    void construct(const void* p, int type) {
        constructed++;
        if (!live.emplace(p, slot{ type, false }).second) {
            bad("object constructed over a living object", type, p);
        } else {
            count[type]++;
        }
    }
    void destroy(const void* p, int type) {
        auto it = live.find(p);
        if (it == live.end()) {
            bad("destructor run on an object that is not alive", type, p);
            return;
        }
        if (it->second.type != type) {
            bad("destructor of a different type", type, p);
        }
        count[it->second.type]--;
        live.erase(it);
    }
    void source(const void* p, int type, const char* what) {
        auto it = live.find(p);
        if (it == live.end()) {
            bad(what, type, p);
        } else if (it->second.type != type) {
            bad("object accessed as a different type", type, p);
        }
    }
    void moved(const void* p) {
        auto it = live.find(p);
        if (it != live.end()) {
            it->second.moved_from = true;
        }
    }
    void unmoved(const void* p) {
        auto it = live.find(p);
        if (it != live.end()) {
            it->second.moved_from = false;
        }
    }
};
extern tracker T;

struct armed_exception : std::runtime_error {
    using std::runtime_error::runtime_error;
};

/// base that registers its address; CopyThrows/CtorThrows make it throw when armed
template<int Id>
struct tracked {
    tracked() noexcept {
        T.construct(this, Id);
    }
    tracked(const tracked& o) noexcept {
        T.source(&o, Id, "copy from an object that is not alive");
        T.construct(this, Id);
    }
    tracked(tracked&& o) noexcept {
        T.source(&o, Id, "move from an object that is not alive");
        T.construct(this, Id);
        T.moved(&o);
    }
    tracked& operator=(const tracked& o) noexcept {
        T.source(&o, Id, "copy assignment from an object that is not alive");
        T.source(this, Id, "assignment to an object that is not alive");
        T.unmoved(this);
        return *this;
    }
    tracked& operator=(tracked&& o) noexcept {
        T.source(&o, Id, "move assignment from an object that is not alive");
        T.source(this, Id, "assignment to an object that is not alive");
        if (&o != this) {
            T.unmoved(this);
            T.moved(&o);
        }
        return *this;
    }
    ~tracked() {
        T.destroy(this, Id);
    }
};

inline u64 mix(u64 x) {
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    return x;
}

constexpr u64 BAD = ~0ull;

/// plain bytes: value in the first min(Size,4) bytes, the rest derived from it
template<int Id, std::size_t Size, std::size_t Align>
struct alignas(Align) pod {
    unsigned char d[Size];

    static constexpr std::size_t vb = Size < 4 ? Size : 4;

    pod() = default;
    explicit pod(const u64& v) {
        for (std::size_t i = 0; i < Size; i++) {
            d[i] = i < vb ? static_cast<unsigned char>(v >> (8 * i)) : fill(v & 0xffffffffu, i);
        }
    }
    static unsigned char fill(u64 v, std::size_t i) {
        return static_cast<unsigned char>((v * 167 + Id * 31 + 7) ^ (i * 13));
    }
    static u64 canon(u64 v) {
        return v & (vb == 4 ? 0xffffffffull : ((1ull << (8 * vb)) - 1));
    }
    u64 val() const {
        u64 v = 0;
        for (std::size_t i = 0; i < vb; i++) {
            v |= u64(d[i]) << (8 * i);
        }
        for (std::size_t i = vb; i < Size;) {
            if (d[i] != fill(v, i)) {
                return BAD;
            }
            i += (i < 20 || i + 20 > Size) ? 1 : 61;
            if (i > Size - 20 && i - 61 < Size - 20) {
                i = Size - 20;
            }
        }
        return v;
    }
};

template<int Id>
struct tag {
    tag() = default;
    explicit tag(const u64&) {
    }
    static u64 canon(u64) {
        return 0;
    }
    u64 val() const {
        return 0;
    }
};

template<int Id>
struct str : tracked<Id> {
    std::string s;
    str() = default;
    explicit str(const u64& v) : s("value-of-a-heap-string-" + std::to_string(v)) {
    }
    static u64 canon(u64 v) {
        return v;
    }
    u64 val() const {
        if (s.size() < 24 || s.compare(0, 23, "value-of-a-heap-string-") != 0) {
            return BAD;
        }
        return std::strtoull(s.c_str() + 23, nullptr, 10);
    }
};

template<int Id>
struct own : tracked<Id> {
    std::unique_ptr<u64> p;
    own() : p(new u64(0)) {
    }
    explicit own(const u64& v) : p(new u64(v)) {
    }
    own(own&&) noexcept = default;
    own& operator=(own&&) noexcept = default;
    static u64 canon(u64 v) {
        return v;
    }
    u64 val() const {
        return p ? *p : BAD;
    }
};

template<int Id>
struct vec : tracked<Id> {
    std::vector<u64> v;
    vec() : v(1, 0) {
    }
    explicit vec(const u64& x) : v(1 + x % 3, x) {
    }
    static u64 canon(u64 v) {
        return v;
    }
    u64 val() const {
        if (v.empty() || v.size() != 1 + v[0] % 3 || v.back() != v[0]) {
            return BAD;
        }
        return v[0];
    }
};

/// holds a pointer to itself: broken if relocated bytewise
template<int Id>
struct selfp : tracked<Id> {
    u64 v;
    selfp* self;
    selfp() : v(0), self(this) {
    }
    explicit selfp(const u64& x) : v(x), self(this) {
    }
    selfp(const selfp& o) noexcept : tracked<Id>(o), v(o.v), self(this) {
    }
    selfp(selfp&& o) noexcept : tracked<Id>(std::move(o)), v(o.v), self(this) {
        o.v = 0xdeadull << 40;
    }
    selfp& operator=(const selfp& o) noexcept {
        tracked<Id>::operator=(o);
        v = o.v;
        return *this;
    }
    selfp& operator=(selfp&& o) noexcept {
        tracked<Id>::operator=(std::move(o));
        if (this != &o) {
            v = o.v;
            o.v = 0xdeadull << 40;
        }
        return *this;
    }
    static u64 canon(u64 v) {
        return v;
    }
    u64 val() const {
        return self == this ? v : BAD;
    }
};

/// copy construction and construction from a value throw when armed
template<int Id>
struct thrower : tracked<Id> {
    std::unique_ptr<u64> p;
    thrower() : p(new u64(0)) {
    }
    explicit thrower(const u64& v) : p(new u64(v)) {
        if (T.arm_ctor >= 0 && T.arm_ctor-- == 0) {
            throw armed_exception("armed constructor");
        }
    }
    thrower(const thrower& o) : tracked<Id>(o), p(new u64(*o.p)) {
        if (T.arm_copy >= 0 && T.arm_copy-- == 0) {
            throw armed_exception("armed copy constructor");
        }
    }
    thrower(thrower&&) noexcept = default;
    thrower& operator=(const thrower& o) {
        *this = thrower(o);
        return *this;
    }
    thrower& operator=(thrower&&) noexcept = default;
    static u64 canon(u64 v) {
        return v;
    }
    u64 val() const {
        return p ? *p : BAD;
    }
};

struct agg {
    std::int32_t a;
    float b;
    double c;
    static u64 canon(u64 v) {
        return v & 0xffffff;
    }
    u64 val() const {
        u64 v = static_cast<std::uint32_t>(a);
        return (b == static_cast<float>(v) && c == static_cast<double>(v) * 0.5) ? v : BAD;
    }
};

// index -> type
template<int I>
struct type_at;
#define RT_TYPE(I, ...)            \
    template<>                     \
    struct type_at<I> {            \
        using type = __VA_ARGS__;  \
    }
RT_TYPE(0, pod<0, 8, 8>);
RT_TYPE(1, pod<1, 4, 4>);
RT_TYPE(2, pod<2, 1, 1>);
RT_TYPE(3, pod<3, 2, 2>);
RT_TYPE(4, pod<4, 3, 1>);
RT_TYPE(5, pod<5, 12, 4>);
RT_TYPE(6, pod<6, 16, 16>);
RT_TYPE(7, pod<7, 64, 32>);
RT_TYPE(8, pod<8, 64, 64>);
RT_TYPE(9, tag<9>);
RT_TYPE(10, tag<10>);
RT_TYPE(11, pod<11, 100, 1>);
RT_TYPE(12, pod<12, 1000, 8>);
RT_TYPE(13, pod<13, 5000, 4>);
RT_TYPE(14, pod<14, 7, 1>);
RT_TYPE(15, str<15>);
RT_TYPE(16, own<16>);
RT_TYPE(17, vec<17>);
RT_TYPE(18, selfp<18>);
RT_TYPE(19, own<19>);
RT_TYPE(20, thrower<20>);
RT_TYPE(21, thrower<21>);
RT_TYPE(22, pod<22, 9000, 8>);
RT_TYPE(23, pod<23, 6000, 2>);
RT_TYPE(24, pod<24, 20000, 8>);
RT_TYPE(25, agg);
RT_TYPE(26, selfp<26>);
RT_TYPE(27, pod<27, 24, 8>);
template<int I>
using type_t = typename type_at<I>::type;
constexpr int NT = 28;
constexpr int T8 = 0; // alias source

template<typename C>
struct maker {
    static C make(u64 v) {
        return C(v);
    }
};
template<>
struct maker<agg> {
    static agg make(u64 v) {
        v = agg::canon(v);
        return agg{ static_cast<std::int32_t>(v), static_cast<float>(v), static_cast<double>(v) * 0.5 };
    }
};

constexpr bool is_tracked_index(int i) {
    return (i >= 15 && i <= 21) || i == 26;
}
constexpr bool is_copyable_index(int i) {
    return i != 16 && i != 19;
}
constexpr bool is_thrower_index(int i) {
    return i == 20 || i == 21;
}

using registry = co_ecs::registry;

/// type-erased operations on one component type
struct type_ops {
    std::size_t size, align;
    bool tracked, copyable;
    u64 (*canon)(u64);
    u64 (*val)(const void*);
    std::uint32_t (*id)();
    bool (*meta_ok)(const co_ecs::component_meta&);

    void (*set_move)(registry&, entity, u64);   // set<C>(C&&)
    void (*set_copy)(registry&, entity, u64);   // set<C>(const C&)
    void (*set_args)(registry&, entity, u64);   // set<C>(args...)
    void (*set_alias)(registry&, entity, entity);  // set<C>(reference into the T8 component of an entity)
    void (*set_self)(registry&, entity, entity);   // set<C>(get<C>() of an entity)
    void (*set_take)(registry&, entity, entity);   // set<C>(std::move(get<C>() of another entity))
    void* (*goi)(registry&, entity, u64);       // get_or_insert<C>(args...)
    void* (*goi_alias)(registry&, entity, entity);
    void (*write)(registry&, entity, u64);      // get<C>() = ...
    void (*remove)(registry&, entity);
    bool (*has)(registry&, entity);
    bool (*has_const)(const registry&, entity);
    const void* (*get)(registry&, entity);
    const void* (*get_cref)(registry&, entity); // const entity_ref
    const void* (*get_const)(const registry&, entity);
    std::pair<const void*, const void*> (*get2)(registry&, entity);            // get<C, T8>
    std::pair<const void*, const void*> (*get2_const)(const registry&, entity);
    bool (*arch_contains)(registry&, entity);
    entity (*create1)(registry&, u64);
    // command recording
    void (*cmd_set)(co_ecs::command_entity_ref&, u64, bool args);
    void (*cmd_remove)(co_ecs::command_entity_ref&);
    entity (*cmd_create1)(registry&, u64);
};

extern const type_ops* ops[NT];

template<int I>
struct ops_impl {
    using C = type_t<I>;
    static C mk(u64 v) {
        return maker<C>::make(v);
    }
    static const type_ops* table() {
        static const type_ops t = make_table();
        return &t;
    }
    static type_ops make_table() {
        type_ops o{};
        o.size = sizeof(C);
        o.align = alignof(C);
        o.tracked = is_tracked_index(I);
        o.copyable = is_copyable_index(I);
        o.canon = [](u64 v) { return C::canon(v); };
        o.val = [](const void* p) { return static_cast<const C*>(p)->val(); };
        o.id = [] { return static_cast<std::uint32_t>(co_ecs::component_id::value<C>); };
        o.meta_ok = [](const co_ecs::component_meta& m) {
            return m.type != nullptr && m.type->size == sizeof(C) && m.type->align == alignof(C);
        };
        o.set_move = [](registry& r, entity e, u64 v) { r.get_entity(e).template set<C>(mk(v)); };
        if constexpr (std::is_copy_constructible_v<C>) {
            o.set_copy = [](registry& r, entity e, u64 v) {
                const C c = mk(v);
                r.get_entity(e).template set<C>(c);
            };
            o.set_self = [](registry& r, entity e, entity from) {
                r.get_entity(e).template set<C>(r.get_entity(from).template get<C>());
            };
        }
        o.set_take = [](registry& r, entity e, entity from) {
            r.get_entity(e).template set<C>(std::move(r.get_entity(from).template get<C>()));
        };
        if constexpr (std::is_same_v<C, agg>) {
            o.set_args = [](registry& r, entity e, u64 v) {
                agg a = mk(v);
                r.get_entity(e).template set<C>(a.a, a.b, a.c);
            };
            o.goi = [](registry& r, entity e, u64 v) -> void* {
                agg a = mk(v);
                return &r.get_entity(e).template get_or_insert<C>(a.a, a.b, a.c);
            };
        } else {
            o.set_args = [](registry& r, entity e, u64 v) { r.get_entity(e).template set<C>(v); };
            o.goi = [](registry& r, entity e, u64 v) -> void* { return &r.get_entity(e).template get_or_insert<C>(v); };
            if constexpr (sizeof(C) > 0) {
                o.set_alias = [](registry& r, entity e, entity from) {
                    auto ref = r.get_entity(e);
                    auto& src = r.get_entity(from).template get<type_t<T8>>();
                    ref.template set<C>(reinterpret_cast<const u64&>(src.d));
                };
                o.goi_alias = [](registry& r, entity e, entity from) -> void* {
                    auto ref = r.get_entity(e);
                    auto& src = r.get_entity(from).template get<type_t<T8>>();
                    return &ref.template get_or_insert<C>(reinterpret_cast<const u64&>(src.d));
                };
            }
        }
        o.write = [](registry& r, entity e, u64 v) { r.get_entity(e).template get<C>() = mk(v); };
        o.remove = [](registry& r, entity e) { r.get_entity(e).template remove<C>(); };
        o.has = [](registry& r, entity e) { return r.get_entity(e).template has<C>(); };
        o.has_const = [](const registry& r, entity e) { return r.get_entity(e).template has<C>(); };
        o.get = [](registry& r, entity e) -> const void* { return &r.get_entity(e).template get<C>(); };
        o.get_cref = [](registry& r, entity e) -> const void* {
            const auto ref = r.get_entity(e);
            return &ref.template get<C>();
        };
        o.get_const = [](const registry& r, entity e) -> const void* { return &r.get_entity(e).template get<C>(); };
        if constexpr (I != T8) {
            o.get2 = [](registry& r, entity e) {
                auto [a, b] = r.get_entity(e).template get<C, type_t<T8>>();
                return std::pair<const void*, const void*>(&a, &b);
            };
            o.get2_const = [](const registry& r, entity e) {
                auto [b, a] = r.get_entity(e).template get<type_t<T8>, C>();
                return std::pair<const void*, const void*>(&a, &b);
            };
        }
        o.arch_contains = [](registry& r, entity e) {
            auto ref = r.get_entity(e);
            bool a = ref.archetype().template contains<C>();
            bool b = ref.archetype().components().template contains<C>();
            const registry& cr = r;
            bool c = cr.get_entity(e).archetype().template contains<C>();
            if (a != b || a != c) {
                throw std::logic_error("archetype disagrees with itself about a component");
            }
            return a;
        };
        o.create1 = [](registry& r, u64 v) -> entity { return r.create<C>(mk(v)); };
        o.cmd_set = [](co_ecs::command_entity_ref& r, u64 v, bool args) {
            if constexpr (!std::is_same_v<C, agg>) {
                if (args) {
                    r.template set<C>(v);
                    return;
                }
            }
            r.template set<C>(mk(v));
        };
        o.cmd_remove = [](co_ecs::command_entity_ref& r) { r.template remove<C>(); };
        o.cmd_create1 = [](registry& r, u64 v) -> entity {
            co_ecs::command_writer w{ r };
            return w.create<C>(mk(v));
        };
        return o;
    }
};

/// fixed combinations for create<...>(...)
struct create_combo {
    std::vector<int> types;
    entity (*create)(registry&, const u64* vals);
    entity (*cmd_create)(registry&, const u64* vals);
};
extern std::vector<create_combo> combos;
void init_ops();

} // namespace rt
