// C01, C04, C05: registries of very many archetypes, over component types whose ids span several blocks of a component set.
// 20 types used and 120 which only take ids: sets {k}, {k + 64} and {k + 128} have the same hash, and the archetype map
// grows many times.
#include <co_ecs/co_ecs.hpp>
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <bitset>
#include <unordered_map>
#include <unordered_set>
namespace many {
namespace {
using co_ecs::entity;
using co_ecs::registry;
using u64 = std::uint64_t;
constexpr int N = 20;
constexpr int FILL = 120;

template<int I>
struct comp {
    u64 v;
};
template<>
struct comp<7> {
    u64 v;
    std::string s;
    explicit comp(u64 x) : v(x), s(std::to_string(x) + "a string that does not fit in place") {
    }
};
template<int I>
struct filler {};
template<std::size_t... I>
void fill(std::index_sequence<I...>) {
    static_cast<void>((co_ecs::component_id::get<filler<I>>() + ... + 0));
}
template<int I>
bool ok(const comp<I>& x, u64 v) {
    if constexpr (I == 7) {
        return x.v == v && x.s == std::to_string(v) + "a string that does not fit in place";
    }
    return x.v == v;
}
u64 key(entity e) {
    return (u64{ e.generation() } << 32) | e.id();
}
std::string show(entity e) {
    return "(" + std::to_string(e.id()) + "," + std::to_string(e.generation()) + ")";
}
struct rec {
    entity h;
    std::bitset<N> mask;
    std::array<u64, N> val;
};
struct ops {
    entity (*create)(registry&, u64);
    void (*set)(registry&, entity, u64);
    u64 (*goi)(registry&, entity, u64);
    void (*remove)(registry&, entity);
    bool (*has)(const registry&, entity);
    bool (*check)(const registry&, entity, u64); // value is v
    void (*each)(const registry&, void*, void (*)(void*, entity, bool (*)(const void*, u64), const void*));
    std::uint32_t (*id)();
    void (*pair)(const registry&, void*, void (*)(void*, entity, u64, u64)); // with another type
};
template<int I>
constexpr ops make() {
    using T = comp<I>;
    using U = comp<(I + 7) % N>;
    return {
        [](registry& r, u64 v) -> entity { return r.create<T>(T(v)); },
        [](registry& r, entity e, u64 v) { r.get_entity(e).template set<T>(v); },
        [](registry& r, entity e, u64 v) { return r.get_entity(e).template get_or_insert<T>(v).v; },
        [](registry& r, entity e) { r.get_entity(e).template remove<T>(); },
        [](const registry& r, entity e) { return r.get_entity(e).template has<T>(); },
        [](const registry& r, entity e, u64 v) { return ok<I>(r.get_entity(e).template get<T>(), v); },
        [](const registry& r, void* p, void (*f)(void*, entity, bool (*)(const void*, u64), const void*)) {
            r.view<const entity&, const T&>().each([&](const entity& e, const T& x) {
                f(p, e, [](const void* q, u64 v) { return ok<I>(*static_cast<const T*>(q), v); }, &x);
            });
        },
        [] { return static_cast<std::uint32_t>(co_ecs::component_id::get<T>()); },
        [](const registry& r, void* p, void (*f)(void*, entity, u64, u64)) {
            r.each([&](const entity& e, const T& x, const U& y) { f(p, e, x.v, y.v); });
        },
    };
}
template<std::size_t... I>
constexpr std::array<ops, N> table(std::index_sequence<I...>) {
    return { make<static_cast<int>(I)>()... };
}
constexpr auto TYPES = table(std::make_index_sequence<N>());

enum what { STATE = 1, VIEWS = 2, TRANSFER = 4 };

void run(pbt::ctx& c, unsigned checks) {
    auto& s = c.src;
    struct side {
        registry r;
        std::vector<rec> es;
    } sides[2];
    u64 next = 1;
    std::unordered_set<std::bitset<N>> sets;
    // the types of this case: some of them collide in the hash of component sets
    std::vector<int> types;
    fill(std::make_index_sequence<FILL>());
    int wanted = 3 + static_cast<int>(s.small(24));
    while (static_cast<int>(types.size()) < wanted) {
        int t = static_cast<int>(s.draw(N));
        types.push_back(t);
        bool all = s.chance(2, 3);
        for (int k = 0; all && k < N; k++) {
            if (k != t && TYPES[k].id() % 64 == TYPES[t].id() % 64) {
                types.push_back(k);
            }
        }
    }
    auto verify = [&](side& x, rec& e) {
        const registry& cr = x.r;
        for (int t = 0; t < N; t++) {
            bool has = TYPES[t].has(cr, e.h);
            PBT_CHECK(has == e.mask[t], "entity " << show(e.h) << (has ? " has" : " lacks") << " component " << t);
            if (has) {
                PBT_CHECK(TYPES[t].check(cr, e.h, e.val[t]), "entity " << show(e.h) << " has another value of component " << t);
            }
        }
        auto n = cr.get_entity(e.h).archetype().components().size();
        PBT_CHECK(n == e.mask.count(), "the archetype of entity " << show(e.h) << " has " << n << " components, the entity " << e.mask.count());
        std::bitset<N> seen;
        u64 visited = 0;
        cr.get_entity(e.h).visit([&](const auto&, const void*) { visited++; });
        PBT_CHECK(visited == e.mask.count(), "visit of entity " << show(e.h) << " gives " << visited << " components of " << e.mask.count());
    };
    auto views = [&](side& x, int t) {
        struct acc {
            std::unordered_map<u64, const rec*> at;
            std::unordered_set<u64> seen;
            int t;
        } a;
        a.t = t;
        u64 want = 0, want2 = 0;
        int t2 = (t + 7) % N;
        for (auto& e : x.es) {
            a.at.emplace(key(e.h), &e);
            want += e.mask[t];
            want2 += e.mask[t] && e.mask[t2];
        }
        TYPES[t].each(x.r, &a, [](void* p, entity h, bool (*eq)(const void*, u64), const void* q) {
            auto& a = *static_cast<acc*>(p);
            PBT_CHECK(a.seen.insert(key(h)).second, "the view of component " << a.t << " reports " << show(h) << " twice");
            auto it = a.at.find(key(h));
            PBT_CHECK(it != a.at.end() && it->second->mask[a.t], "the view of component " << a.t << " reports " << show(h) << " which does not match");
            PBT_CHECK(eq(q, it->second->val[a.t]), "the view of component " << a.t << " gives another value for " << show(h));
        });
        PBT_CHECK(a.seen.size() == want, "the view of component " << t << " reports " << a.seen.size() << " entities of " << want);
        a.seen.clear();
        TYPES[t].pair(x.r, &a, [](void* p, entity h, u64 v, u64 w) {
            auto& a = *static_cast<acc*>(p);
            int u = (a.t + 7) % N;
            PBT_CHECK(a.seen.insert(key(h)).second, "the view of components " << a.t << " and " << u << " reports " << show(h) << " twice");
            auto it = a.at.find(key(h));
            PBT_CHECK(it != a.at.end() && it->second->mask[a.t] && it->second->mask[u],
                "the view of components " << a.t << " and " << u << " reports " << show(h) << " which does not match");
            PBT_CHECK(v == it->second->val[a.t] && w == it->second->val[u], "the view of components " << a.t << " and " << u << " gives other values for " << show(h));
        });
        PBT_CHECK(a.seen.size() == want2, "the view of components " << t << " and " << t2 << " reports " << a.seen.size() << " entities of " << want2);
    };
    s.set_len(5 + s.small(s.chance(1, 6) ? 500 : 120));
    while (s.more()) {
        c.steps++;
        auto& x = sides[s.chance(1, 6)];
        auto& y = sides[&x == &sides[0]];
        int t = s.pick(types);
        auto op = x.es.empty() ? 0 : s.weighted({ 4, 10, 6, 3, 1, checks & TRANSFER ? 6u : 1u });
        rec* touched = nullptr;
        side* home = &x;
        switch (op) {
        case 0: {
            rec e{ {}, {}, {} };
            e.val[t] = next++;
            e.mask[t] = true;
            e.h = TYPES[t].create(x.r, e.val[t]);
            PBT_NOTE(c, "create " << t << " -> " << show(e.h));
            x.es.push_back(e);
            touched = &x.es.back();
            break;
        }
        case 1:
        case 2: {
            auto& e = s.pick(x.es);
            // several at once, so that far away archetypes are reached
            for (auto k = 1 + s.small(6); k > 0; k--, t = s.pick(types)) {
                if (op == 1) {
                    PBT_NOTE(c, "set " << t << " on " << show(e.h));
                    e.val[t] = next++;
                    TYPES[t].set(x.r, e.h, e.val[t]);
                    e.mask[t] = true;
                } else {
                    PBT_NOTE(c, "remove " << t << " from " << show(e.h));
                    TYPES[t].remove(x.r, e.h);
                    e.mask[t] = false;
                }
                sets.insert(e.mask);
            }
            touched = &e;
            break;
        }
        case 3: {
            auto& e = s.pick(x.es);
            PBT_NOTE(c, "get_or_insert " << t << " on " << show(e.h));
            u64 fresh = next++;
            u64 got = TYPES[t].goi(x.r, e.h, fresh);
            if (!e.mask[t]) {
                e.val[t] = fresh;
                e.mask[t] = true;
            }
            PBT_CHECK(got == e.val[t], "get_or_insert of " << t << " on " << show(e.h) << " gave " << got << ", expected " << e.val[t]);
            sets.insert(e.mask);
            touched = &e;
            break;
        }
        case 4: {
            auto i = s.draw(x.es.size());
            PBT_NOTE(c, "destroy " << show(x.es[i].h));
            x.r.destroy(x.es[i].h);
            x.es[i] = x.es.back();
            x.es.pop_back();
            break;
        }
        default: {
            auto i = s.draw(x.es.size());
            auto e = x.es[i];
            switch (s.draw(3)) {
            case 0:
                PBT_NOTE(c, "clone " << show(e.h));
                e.h = x.r.get_entity(e.h).clone();
                x.es.push_back(e);
                touched = &x.es.back();
                break;
            case 1:
                PBT_NOTE(c, "copy " << show(e.h));
                e.h = x.r.get_entity(e.h).copy(y.r);
                y.es.push_back(e);
                touched = &y.es.back();
                home = &y;
                break;
            default:
                PBT_NOTE(c, "move " << show(e.h));
                e.h = x.r.get_entity(e.h).move(y.r);
                x.es[i] = x.es.back();
                x.es.pop_back();
                y.es.push_back(e);
                touched = &y.es.back();
                home = &y;
            }
        }
        }
        if (touched && (checks & (STATE | TRANSFER))) {
            verify(*home, *touched);
            if (!x.es.empty()) {
                verify(x, x.es[c.steps % x.es.size()]);
            }
        }
        if ((checks & VIEWS) && c.steps % 3 == 0) {
            views(x, t);
        }
    }
    for (auto& x : sides) {
        if (checks & (STATE | TRANSFER)) {
            for (auto& e : x.es) {
                verify(x, e);
            }
        }
        if (checks & VIEWS) {
            std::sort(types.begin(), types.end());
            types.erase(std::unique(types.begin(), types.end()), types.end());
            for (int t : types) {
                views(x, t);
            }
        }
    }
    if (sets.size() > 14) {
        c.nontrivial();
    }
    if (sets.size() > 110) {
        c.label("case: more than 110 different component sets");
    }
}
constexpr const char* rule = "histories over 3-20 of 20 component types (with 120 others that only take ids, so ids lie in three blocks of a component set and sets of equal hash come up) in which "
                             "entities get hundreds of different component sets; model: one record per entity; "
                             "non-trivial: more than 14 different component sets (the archetype map has grown)";
pbt::registrar r1({ "C01", "archetypes", [](pbt::ctx& c) { run(c, STATE); }, 120000, 2000000, rule });
pbt::registrar r4({ "C04", "archetypes", [](pbt::ctx& c) { run(c, VIEWS); }, 120000, 2000000, rule });
pbt::registrar r5({ "C05", "archetypes", [](pbt::ctx& c) { run(c, TRANSFER); }, 120000, 2000000, rule });
} // namespace
} // namespace many
