// Part of every module of a generated program (C19): what a module tells the driver about the component types it uses,
// and operations on registries done by the code of that module.
#pragma once
#ifdef PROG_IDS_ONLY // quick to compile: identities and metadata, no registries
#include <co_ecs/component.hpp>
namespace co_ecs {
class registry;
struct entity {};
} // namespace co_ecs
#else
#include <co_ecs/co_ecs.hpp>
#endif
#include <string>
#include <type_traits>
#include <vector>

namespace prog {

struct type_ops {
    int index;                                      // type number in the program
    std::size_t size, align;                        // as the compiler sees it in this module
    co_ecs::component_id_t static_id;               // seen during static initialization of the module
    co_ecs::component_id_t (*value)();              // component_id::value<T>
    co_ecs::component_id_t (*id)();                 // component_meta::of<T>().id
    const co_ecs::type_meta* (*meta)();             // component_meta::of<T>().type
    bool valued;                                    // has an int member v
    co_ecs::entity (*create)(co_ecs::registry&, int);
    void (*set)(co_ecs::registry&, co_ecs::entity, int);
    void (*remove)(co_ecs::registry&, co_ecs::entity);
    bool (*has)(co_ecs::registry&, co_ecs::entity);
    int (*get)(co_ecs::registry&, co_ecs::entity);  // 1 for types without a value
    void (*sum)(co_ecs::registry&, long&, long&, bool); // number and sum over a view, optionally adding one to each
};
struct pair_ops {
    int a, b;
    co_ecs::entity (*create)(co_ecs::registry&, int, int);
    void (*sum)(co_ecs::registry&, long&, long&);
};
struct bulk_ops {
    int family, count;
    co_ecs::component_id_t (*id)(int);
};
struct module_info {
    std::vector<type_ops> types;
    std::vector<pair_ops> pairs;
    std::vector<bulk_ops> bulk;
    co_ecs::registry* early{};                      // registry filled during static initialization
    std::vector<std::pair<int, co_ecs::entity>> early_entities;
};

template<typename T>
concept valued = requires(T& t) { { t.v } -> std::same_as<int&>; };

// only code compiled into this module may be used through the tables: everything below has internal linkage
namespace {
template<typename T>
T make(int v) {
    T t{};
    if constexpr (valued<T>) {
        t.v = v;
    }
    return t;
}
template<typename T>
int value_of(const T& t) {
    if constexpr (valued<T>) {
        return t.v;
    } else {
        return 1;
    }
}
/// identity and metadata only
template<typename T>
type_ops light(int index) {
    type_ops o{};
    o.index = index;
    o.size = sizeof(T);
    o.align = alignof(T);
    o.static_id = co_ecs::component_meta::of<T>().id;
    o.value = [] { return co_ecs::component_id_t{ co_ecs::component_id::value<T> }; };
    o.id = [] { return co_ecs::component_meta::of<T>().id; };
    o.meta = [] { return co_ecs::component_meta::of<T>().type; };
    o.valued = valued<T>;
    return o;
}
#ifndef PROG_IDS_ONLY
template<typename T>
type_ops ops(int index) {
    type_ops o = light<T>(index);
    o.create = [](co_ecs::registry& r, int v) -> co_ecs::entity { return r.create<T>(make<T>(v)); };
    o.set = [](co_ecs::registry& r, co_ecs::entity e, int v) { r.get_entity(e).template set<T>(make<T>(v)); };
    o.remove = [](co_ecs::registry& r, co_ecs::entity e) { r.get_entity(e).template remove<T>(); };
    o.has = [](co_ecs::registry& r, co_ecs::entity e) { return r.has<T>(e); };
    o.get = [](co_ecs::registry& r, co_ecs::entity e) { return value_of<T>(r.get_entity(e).template get<T>()); };
    o.sum = [](co_ecs::registry& r, long& n, long& s, bool add) {
        r.view<T&>().each([&](T& t) {
            n++;
            s += value_of<T>(t);
            if constexpr (valued<T>) {
                t.v += add ? 1 : 0;
            }
        });
    };
    return o;
}
template<typename A, typename B>
pair_ops pair(int a, int b) {
    pair_ops o{};
    o.a = a;
    o.b = b;
    o.create = [](co_ecs::registry& r, int x, int y) -> co_ecs::entity { return r.create<A, B>(make<A>(x), make<B>(y)); };
    o.sum = [](co_ecs::registry& r, long& n, long& s) {
        r.view<A&, const B&>().each([&](A& x, const B& y) {
            n++;
            s += 3L * value_of<A>(x) + value_of<B>(y);
        });
    };
    return o;
}
template<typename T>
void early(module_info& m, int index, int v) {
    if (!m.early) {
        m.early = new co_ecs::registry;
    }
    m.early_entities.emplace_back(index, m.early->create<T>(make<T>(v)));
}
#endif
template<template<int> class F, int N>
bulk_ops bulk(int family) {
    bulk_ops o{};
    o.family = family;
    o.count = N;
    o.id = [](int k) -> co_ecs::component_id_t {
        co_ecs::component_id_t r{};
        [&]<int... I>(std::integer_sequence<int, I...>) {
            ((I == k ? void(r = co_ecs::component_meta::of<F<I>>().id) : void()), ...);
        }(std::make_integer_sequence<int, N>{});
        return r;
    };
    return o;
}
} // namespace

} // namespace prog
