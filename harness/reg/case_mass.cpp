// C01, C02, C03, C04, C05, C07, C08: registries of very many entities, of chunks that hold few of them, and of many chunks.
// Counts pass 256 chunks in one archetype, 65536 entities and ids; the model is one record per entity.
#include <co_ecs/co_ecs.hpp>
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <memory>
#include <unordered_map>
#include <unordered_set>
namespace mass {
namespace {
using co_ecs::entity;
using co_ecs::registry;
using u64 = std::uint64_t;
using u32 = std::uint32_t;
constexpr int K = 5;

std::int64_t living[K];

template<int I, std::size_t SIZE, std::size_t ALIGN>
struct comp {
    static constexpr int index = I;
    u64 v;
    std::unique_ptr<u64> own; // so that a lost or doubled object is noticed
    alignas(ALIGN) char pad[SIZE > 16 ? SIZE - 16 : 1];
    explicit comp(u64 x) noexcept : v(x) {
        pad[0] = static_cast<char>(x);
        pad[sizeof(pad) - 1] = static_cast<char>(x);
        living[I]++;
    }
    comp(const comp& o) noexcept : comp(o.v) {
    }
    comp(comp&& o) noexcept : comp(o.v) {
    }
    comp& operator=(comp&& o) noexcept {
        v = o.v;
        pad[0] = o.pad[0];
        pad[sizeof(pad) - 1] = o.pad[sizeof(pad) - 1];
        return *this;
    }
    ~comp() {
        living[I]--;
    }
    bool ok(u64 x) const {
        return v == x && pad[0] == static_cast<char>(x) && pad[sizeof(pad) - 1] == static_cast<char>(x);
    }
};
template<int I>
struct tiny {
    static constexpr int index = I;
    u64 v;
    explicit tiny(u64 x) noexcept : v(x) {
        living[I]++;
    }
    tiny(const tiny& o) noexcept : tiny(o.v) {
    }
    tiny(tiny&& o) noexcept : tiny(o.v) {
    }
    tiny& operator=(tiny&& o) noexcept {
        v = o.v;
        return *this;
    }
    ~tiny() {
        living[I]--;
    }
    bool ok(u64 x) const {
        return v == x;
    }
};
using c0 = tiny<0>;
using c1 = tiny<1>;
using c2 = comp<2, 96, 32>;
using c3 = comp<3, 5000, 8>;
using c4 = comp<4, 15000, 64>;

template<class F>
auto dispatch(int t, F&& f) {
    switch (t) {
    case 0: return f(std::type_identity<c0>{});
    case 1: return f(std::type_identity<c1>{});
    case 2: return f(std::type_identity<c2>{});
    case 3: return f(std::type_identity<c3>{});
    default: return f(std::type_identity<c4>{});
    }
}
u64 value(u64 n, int t) {
    return n * 0x9e3779b97f4a7c15ull + static_cast<u64>(t) * 77;
}
u64 key(entity e) {
    return (u64{ e.generation() } << 32) | e.id();
}
std::string show(entity e) {
    return "(" + std::to_string(e.id()) + "," + std::to_string(e.generation()) + ")";
}
struct rec {
    entity h;
    u32 mask;
    std::array<u64, K> val;
};
enum what { VALUES = 1, HANDLES = 2, OBJECTS = 4, VIEWS = 8, TRANSFER = 16, ADDRESSES = 32, COMMANDS = 64 };

struct side {
    registry r;
    std::vector<rec> es;
    std::vector<entity> dead;
    std::unordered_set<u64> ever;
};
struct world {
    pbt::ctx& c;
    unsigned checks;
    side sides[2];
    u64 next = 1, most = 0, multi = 0;
    bool large = false;

    void born(side& x, entity h, const char* how) {
        if (checks & HANDLES) {
            PBT_CHECK(h.valid() && x.ever.insert(key(h)).second, how << " gave handle " << show(h) << " which was given out before");
        }
    }
    /// maker: the registry or a command writer
    void create(side& x, u32 mask) {
        make(x, x.r, mask);
    }
    void make(side& x, auto& maker, u32 mask) {
        rec q{ {}, mask, {} };
        for (int t = 0; t < K; t++) {
            q.val[t] = value(next, t);
        }
        next++;
        auto& v = q.val;
        switch (mask) {
        case 1: q.h = maker.template create<c0>(c0(v[0])); break;
        case 2: q.h = maker.template create<c1>(c1(v[1])); break;
        case 3: q.h = maker.template create<c1, c0>(c1(v[1]), c0(v[0])); break;
        case 4: q.h = maker.template create<c2>(c2(v[2])); break;
        case 8: q.h = maker.template create<c3>(c3(v[3])); break;
        case 9: q.h = maker.template create<c0, c3>(c0(v[0]), c3(v[3])); break;
        case 16: q.h = maker.template create<c4>(c4(v[4])); break;
        case 18: q.h = maker.template create<c4, c1>(c4(v[4]), c1(v[1])); break;
        default: q.h = maker.template create<>(); q.mask = 0;
        }
        born(x, q.h, "create");
        x.es.push_back(q);
    }
    void destroy(side& x, std::size_t i) {
        x.r.destroy(x.es[i].h);
        gone(x, i);
    }
    void gone(side& x, std::size_t i) {
        if (x.dead.size() < 3000) {
            x.dead.push_back(x.es[i].h);
        }
        x.es[i] = x.es.back();
        x.es.pop_back();
    }
    // commands: recorded for one registry at a time, flushed there
    side* target{};
    std::size_t size_before{};
    u64 recorded{};

    void flush() {
        if (target == nullptr) {
            return;
        }
        auto& r = target->r;
        PBT_CHECK(r.size() == size_before, "size() went from " << size_before << " to " << r.size() << " by recording commands");
        PBT_NOTE(c, "flush of " << recorded << " commands");
        co_ecs::command_buffer::flush(r);
        PBT_CHECK(r.size() == target->es.size(), "size() is " << r.size() << " after the flush of " << recorded << " commands, expected " << target->es.size());
        target = nullptr;
        recorded = 0;
    }
    void record(side& x, std::size_t what, u64 n, u64 stride, bool back, u32 mask, int t, bool add, u64 cap) {
        if (target != &x) {
            flush();
            target = &x;
            size_before = x.r.size();
        }
        co_ecs::command_writer cmd{ x.r };
        auto pick = [&](u64 i) { return back ? x.es.size() - 1 - (i * stride) % x.es.size() : (i * stride) % x.es.size(); };
        if (what == 0) {
            PBT_NOTE(c, "record creation of " << n << " of kind " << mask);
            for (u64 i = 0; i < n; i++) {
                make(x, cmd, mask);
            }
        } else if (what == 1) {
            n = std::min<u64>(n, x.es.size());
            PBT_NOTE(c, "record destruction of " << n << " of " << x.es.size() << ", stride " << stride << (back ? " from the back" : ""));
            for (u64 i = 0; i < n; i++) {
                auto at = pick(i);
                if (i % 2) {
                    cmd.destroy(x.es[at].h);
                } else {
                    cmd.get_entity(x.es[at].h).destroy();
                }
                gone(x, at);
            }
        } else if (what == 2) {
            n = std::min<u64>(n, x.es.size());
            PBT_NOTE(c, "record " << (add ? "set " : "remove ") << t << " on " << n << " of " << x.es.size() << ", stride " << stride);
            dispatch(t, [&]<class T>(std::type_identity<T>) {
                for (u64 i = 0; i < n; i++) {
                    auto& e = x.es[pick(i)];
                    if (add) {
                        e.val[t] = value(next++, t);
                        cmd.get_entity(e.h).template set<T>(e.val[t]);
                        e.mask |= 1u << t;
                    } else {
                        cmd.get_entity(e.h).template remove<T>();
                        e.mask &= ~(1u << t);
                    }
                }
            });
        } else {
            n = x.es.empty() ? 0 : std::min<u64>(n, cap > x.es.size() ? cap - x.es.size() : 0);
            PBT_NOTE(c, "record " << n << " clones");
            auto from = x.es.size();
            for (u64 i = 0; i < n; i++) {
                auto e = x.es[(i * stride) % from];
                e.h = cmd.get_entity(e.h).clone();
                born(x, e.h, "clone");
                x.es.push_back(e);
            }
        }
        recorded += n;
    }
    void verify() {
        for (auto& x : sides) {
            const registry& cr = x.r;
            if (checks & VALUES) {
                for (auto& e : x.es) {
                    auto ref = cr.get_entity(e.h);
                    for (int t = 0; t < K; t++) {
                        dispatch(t, [&]<class T>(std::type_identity<T>) {
                            bool has = ref.template has<T>();
                            PBT_CHECK(has == ((e.mask >> t) & 1), "entity " << show(e.h) << (has ? " has" : " lacks") << " component " << t);
                            if (has) {
                                PBT_CHECK(ref.template get<T>().ok(e.val[t]), "entity " << show(e.h) << " has another value of component " << t);
                            }
                        });
                    }
                }
            }
            if (checks & HANDLES) {
                PBT_CHECK(cr.size() == x.es.size(), "size() is " << cr.size() << " with " << x.es.size() << " living entities");
                for (auto& e : x.es) {
                    PBT_CHECK(cr.alive(e.h), "living entity " << show(e.h) << " is not alive");
                }
                for (auto h : x.dead) {
                    PBT_CHECK(!cr.alive(h), "dead entity " << show(h) << " is alive");
                }
            }
            if (checks & TRANSFER) {
                PBT_CHECK(cr.size() == x.es.size(), "size() is " << cr.size() << " with " << x.es.size() << " living entities");
                for (auto& e : x.es) {
                    PBT_CHECK(cr.alive(e.h), "living entity " << show(e.h) << " is not alive");
                    for (int t = 0; t < K; t++) {
                        dispatch(t, [&]<class T>(std::type_identity<T>) {
                            auto ref = cr.get_entity(e.h);
                            PBT_CHECK(ref.template has<T>() == ((e.mask >> t) & 1), "entity " << show(e.h) << " after transfers: component " << t << " is wrong");
                            if ((e.mask >> t) & 1) {
                                PBT_CHECK(ref.template get<T>().ok(e.val[t]), "entity " << show(e.h) << " after transfers has another value of component " << t);
                            }
                        });
                    }
                }
            }
            if (checks & VIEWS) {
                std::unordered_map<u64, const rec*> at;
                for (auto& e : x.es) {
                    at.emplace(key(e.h), &e);
                }
                for (int t = 0; t < K; t++) {
                    dispatch(t, [&]<class T>(std::type_identity<T>) {
                        u64 want = 0;
                        for (auto& e : x.es) {
                            want += (e.mask >> t) & 1;
                        }
                        auto visit = [&](const char* how, auto&& loop) {
                            std::unordered_set<u64> seen;
                            loop([&](const entity& h, const T& v) {
                                PBT_CHECK(seen.insert(key(h)).second, how << " reports entity " << show(h) << " twice");
                                auto it = at.find(key(h));
                                PBT_CHECK(it != at.end(), how << " reports " << show(h) << ", which is not a living entity");
                                PBT_CHECK((it->second->mask >> t) & 1, how << " reports " << show(h) << ", which lacks component " << t);
                                PBT_CHECK(v.ok(it->second->val[t]), how << " gives another value for " << show(h) << " component " << t);
                            });
                            PBT_CHECK(seen.size() == want, how << " reports " << seen.size() << " entities of " << want << " with component " << t);
                        };
                        visit("view callback", [&](auto&& f) { cr.view<const entity&, const T&>().each(f); });
                        visit("view range", [&](auto&& f) {
                            for (auto [h, v] : cr.view<const entity&, const T&>().each()) {
                                f(h, v);
                            }
                        });
                    });
                }
            }
            if (checks & ADDRESSES) {
                std::vector<std::pair<std::uintptr_t, std::uintptr_t>> spans;
                for (auto& e : x.es) {
                    for (int t = 0; t < K; t++) {
                        if ((e.mask >> t) & 1) {
                            dispatch(t, [&]<class T>(std::type_identity<T>) {
                                auto p = reinterpret_cast<std::uintptr_t>(&cr.get_entity(e.h).template get<T>());
                                PBT_CHECK(p % alignof(T) == 0, "component " << t << " of " << show(e.h) << " is at an address that is not a multiple of " << alignof(T));
                                spans.emplace_back(p, p + sizeof(T));
                            });
                        }
                    }
                }
                for (auto [h] : cr.view<const entity&>().each()) {
                    auto p = reinterpret_cast<std::uintptr_t>(&h);
                    spans.emplace_back(p, p + sizeof(entity));
                }
                std::sort(spans.begin(), spans.end());
                for (std::size_t i = 1; i < spans.size(); i++) {
                    PBT_CHECK(spans[i - 1].second <= spans[i].first, "two of " << x.es.size() << " entities' components overlap");
                }
            }
        }
        if (checks & OBJECTS) {
            std::int64_t want[K]{};
            for (auto& x : sides) {
                for (auto& e : x.es) {
                    for (int t = 0; t < K; t++) {
                        want[t] += (e.mask >> t) & 1;
                    }
                }
            }
            for (int t = 0; t < K; t++) {
                PBT_CHECK(living[t] == want[t], "component " << t << ": " << living[t] << " living objects, " << want[t] << " entities hold one");
            }
        }
    }
};

void run(pbt::ctx& c, unsigned checks, u64 cap) {
    auto& s = c.src;
    for (auto& n : living) {
        n = 0;
    }
    {
        world w{ c, checks };
        static const std::vector<std::vector<u32>> palettes{ { 1, 3, 2 }, { 1 }, { 4, 1, 0 }, { 8, 9, 1 }, { 16, 18, 2 }, { 16 } };
        auto palette = s.draw(palettes.size());
        const auto& masks = palettes[palette];
        const int big = palette == 3 ? 3 : palette >= 4 ? 4 : -1;
        s.set_len(2 + s.draw(7));
        while (s.more()) {
            c.steps++;
            auto& x = w.sides[s.chance(1, 4)];
            u64 room = cap > x.es.size() ? cap - x.es.size() : 0;
            u64 n = 0;
            switch (s.weighted({ 3, 3, 2 })) {
            case 0: n = 1 + s.small(600); break;
            case 1: n = 255 + s.draw(big >= 0 ? 300 : 3000); break;
            default: n = big >= 0 ? 200 + s.draw(1000) : 30000 + s.draw(42000);
            }
            n = std::min(n, room);
            const u64 stride = 1 + s.small(7);
            const bool back = s.chance(1, 2);
            if (checks & COMMANDS) {
                w.record(x, s.weighted({ 5, 3, 3, 2 }), n, stride, back, s.pick(masks), static_cast<int>(s.draw(big == 4 ? 2 : 3)), s.chance(2, 3), cap);
                if (s.chance(1, 3)) {
                    continue;
                }
                for (auto& q : w.sides) {
                    w.most = std::max<u64>(w.most, q.es.size());
                }
                w.flush();
                w.verify();
                continue;
            }
            // the i-th victim among the entities of x
            auto pick = [&](u64 i) { return back ? x.es.size() - 1 - (i * stride) % x.es.size() : (i * stride) % x.es.size(); };
            switch (s.weighted({ 5, 3, 3, 2, 2 })) {
            case 0: {
                u32 m = s.pick(masks);
                PBT_NOTE(c, "create " << n << " of kind " << m);
                for (u64 i = 0; i < n; i++) {
                    w.create(x, m);
                }
                break;
            }
            case 1: {
                n = std::min<u64>(n, x.es.size());
                PBT_NOTE(c, "destroy " << n << " of " << x.es.size() << ", stride " << stride << (back ? " from the back" : ""));
                for (u64 i = 0; i < n; i++) {
                    w.destroy(x, pick(i));
                }
                break;
            }
            case 2: { // component changes
                n = std::min<u64>(n, x.es.size());
                int t = static_cast<int>(s.draw(big == 4 ? 2 : 3));
                bool add = s.chance(2, 3);
                PBT_NOTE(c, (add ? "set " : "remove ") << t << " on " << n << " of " << x.es.size() << ", stride " << stride);
                dispatch(t, [&]<class T>(std::type_identity<T>) {
                    for (u64 i = 0; i < n; i++) {
                        auto& e = x.es[pick(i)];
                        if (add) {
                            e.val[t] = value(w.next++, t);
                            x.r.get_entity(e.h).template set<T>(e.val[t]);
                            e.mask |= 1u << t;
                        } else {
                            x.r.get_entity(e.h).template remove<T>();
                            e.mask &= ~(1u << t);
                        }
                    }
                });
                break;
            }
            case 3: { // move to the other registry
                auto& y = w.sides[&x == &w.sides[0]];
                n = std::min<u64>({ n, x.es.size(), cap > y.es.size() ? cap - y.es.size() : 0 });
                PBT_NOTE(c, "move " << n << " of " << x.es.size() << " to the other registry");
                for (u64 i = 0; i < n; i++) {
                    auto at = pick(i);
                    auto e = x.es[at];
                    e.h = x.r.get_entity(e.h).move(y.r);
                    w.born(y, e.h, "move");
                    w.gone(x, at);
                    y.es.push_back(e);
                }
                break;
            }
            default: { // clone, or copy to the other registry
                bool same = s.chance(1, 2);
                auto& y = same ? x : w.sides[&x == &w.sides[0]];
                n = x.es.empty() ? 0 : std::min<u64>(n, cap > y.es.size() ? cap - y.es.size() : 0);
                PBT_NOTE(c, (same ? "clone " : "copy ") << n);
                auto from = x.es.size();
                for (u64 i = 0; i < n; i++) {
                    auto e = x.es[(i * stride) % from];
                    e.h = same ? entity(x.r.get_entity(e.h).clone()) : entity(x.r.get_entity(e.h).copy(y.r));
                    w.born(y, e.h, "copy");
                    y.es.push_back(e);
                }
            }
            }
            for (auto& q : w.sides) {
                w.most = std::max<u64>(w.most, q.es.size());
            }
            w.verify();
        }
        w.flush();
        // empty one registry again, the other is left to its destructor
        auto& x = w.sides[0];
        while (!x.es.empty()) {
            w.destroy(x, x.es.size() > 3 && x.es.size() % 3 == 0 ? x.es.size() / 2 : x.es.size() - 1);
        }
        w.verify();
        if (w.most > 256) {
            c.nontrivial();
        }
        if (w.most > 65536) {
            c.label("case: more than 65536 entities");
        }
        if (big == 4 && w.most > 256) {
            c.label("case: more than 256 chunks of one archetype");
        }
    }
    if (checks & OBJECTS) {
        for (int t = 0; t < K; t++) {
            PBT_CHECK(living[t] == 0, "component " << t << ": " << living[t] << " objects are left after the registries are gone");
        }
    }
}
constexpr const char* rule = "few operations on very many entities: histories of up to 8 runs of creations, destructions, component changes, "
                             "moves, copies over two registries, up to 75000 entities each, including components of which one fills a chunk "
                             "(more than 256 chunks); the check of the property over all entities after each run; "
                             "non-trivial: more than 256 entities";
pbt::registrar r1({ "C01", "mass", [](pbt::ctx& c) { run(c, VALUES, 75000); }, 350, 20000, rule });
pbt::registrar r2({ "C02", "mass", [](pbt::ctx& c) { run(c, HANDLES, 75000); }, 1000, 30000, rule });
pbt::registrar r3({ "C03", "mass", [](pbt::ctx& c) { run(c, OBJECTS, 20000); }, 2000, 60000, rule });
pbt::registrar r4({ "C04", "mass", [](pbt::ctx& c) { run(c, VIEWS, 75000); }, 200, 10000, rule });
pbt::registrar r5({ "C05", "mass", [](pbt::ctx& c) { run(c, TRANSFER, 75000); }, 500, 30000, rule });
pbt::registrar r8({ "C08", "mass", [](pbt::ctx& c) { run(c, COMMANDS | VALUES | HANDLES | OBJECTS, 40000); }, 600, 30000,
    "the histories of up to 8 runs of creations, destructions, component changes and clones, tens of thousands at a time, recorded as "
    "commands and flushed; all entities, handles and living objects checked after each flush; non-trivial: more than 256 entities" });
pbt::registrar r7({ "C07", "mass", [](pbt::ctx& c) { run(c, ADDRESSES, 75000); }, 800, 30000, rule });
} // namespace
} // namespace mass
