// C07: component storage is aligned, in bounds, disjoint; component sets are accepted exactly when they fit.
#include "machine.hpp"

#include <sanitizer/asan_interface.h>
namespace rt {
namespace {

struct extent {
    std::uintptr_t lo, hi;
    entity h;
    int t; // -1: entity record
};

template<typename F>
void check_extents(std::vector<extent>& v, F&& describe) {
    std::sort(v.begin(), v.end(), [](const extent& a, const extent& b) { return a.lo < b.lo; });
    for (std::size_t i = 0; i < v.size(); i++) {
        auto* p = reinterpret_cast<void*>(v[i].lo);
        PBT_CHECK(__asan_region_is_poisoned(p, v[i].hi - v[i].lo) == nullptr,
            describe(v[i]) << " lies outside the memory the registry owns");
        if (i > 0) {
            PBT_CHECK(v[i - 1].hi <= v[i].lo, describe(v[i - 1]) << " overlaps " << describe(v[i]));
        }
    }
}

// ------------------------------------------------------------------ arbitrary component sets

struct addr : machine {
    using machine::machine;
    u64 sweeps{}, rejected{}, dense{};

    void sweep(mreg& g) {
        sweeps++;
        std::vector<extent> v;
        for (auto& e : g.ents) {
            for (int t = 0; t < NT; t++) {
                if (!e.has(t)) {
                    continue;
                }
                auto a = reinterpret_cast<std::uintptr_t>(ops[t]->get(*g.r, e.h));
                PBT_CHECK(a % ops[t]->align == 0, "component type " << t << " of entity " << show(e.h) << " is at address "
                                                                    << a << ", not aligned to " << ops[t]->align);
                v.push_back({ a, a + ops[t]->size, e.h, t });
            }
        }
        const registry& cr = *g.r;
        std::size_t n = 0;
        for (auto [e] : co_ecs::view<const entity&>(cr).each()) {
            auto a = reinterpret_cast<std::uintptr_t>(&e);
            PBT_CHECK(a % alignof(entity) == 0, "an entity record is not aligned");
            v.push_back({ a, a + sizeof(entity), e, -1 });
            n++;
        }
        PBT_CHECK(n == g.ents.size(), n << " entity records for " << g.ents.size() << " entities");
        if (n > 40) {
            dense++;
        }
        check_extents(v, [](const extent& x) {
            return x.t < 0 ? "the record of entity " + show(x.h)
                           : "component type " + std::to_string(x.t) + " of entity " + show(x.h);
        });
    }
    /// gives an entity an arbitrary component set, type by type, in any order
    void op_grow(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        auto n = 1 + s.draw(5);
        for (u64 i = 0; i < n; i++) {
            int t = static_cast<int>(s.draw(NT));
            u64 v = value();
            std::uint32_t m = e->mask | (1u << t);
            if (!fits(m) && !cannot_fit(m)) {
                continue;
            }
            PBT_NOTE(c, "r" << reg_index(g) << " set type " << t << " of " << show(e->h) << show_mask(e->mask));
            bool thrown = false;
            try {
                ops[t]->set_move(*g.r, e->h, v);
            } catch (const co_ecs::insufficient_chunk_size&) {
                thrown = true;
            }
            if (fits(m)) {
                PBT_CHECK(!thrown, "component set " << show_mask(m) << " fits a chunk but was rejected");
                e->put(t, ops[t]->canon(v));
            } else {
                PBT_CHECK(thrown, "component set " << show_mask(m) << " cannot fit a chunk but was accepted");
                rejected++;
            }
        }
        verify_entity(g, *e, static_cast<int>(vctr));
    }
};

void case_address(pbt::ctx& c) {
    auto& s = c.src;
    addr m(c, s.chance(1, 5) ? 2 : 1);
    m.choose_types(true);
    m.max_entities = s.chance(1, 200) ? 30000 : 1200;
    static const std::vector<std::vector<unsigned>> profiles{
        // create bulk set remove destroy bulkdestroy transfer grow
        { 5, 2, 4, 2, 2, 1, 1, 4 },
        { 2, 4, 2, 2, 2, 2, 1, 2 },
        { 4, 1, 2, 2, 1, 0, 2, 10 },
    };
    auto w = profiles[s.draw(profiles.size())];
    s.set_len(3 + s.small(40));
    while (s.more()) {
        c.steps++;
        auto& g = m.reg();
        auto k = s.weighted(w);
        switch (k) {
        case 0:
            m.op_create(g);
            break;
        case 1:
            m.op_bulk_create(g);
            break;
        case 2:
            m.op_set(g);
            break;
        case 3:
            m.op_remove(g);
            break;
        case 4:
            m.op_destroy(g);
            break;
        case 5:
            m.op_bulk_destroy(g);
            break;
        case 6:
            m.op_transfer(g, m.reg(), static_cast<int>(s.draw(3)));
            break;
        default:
            m.op_grow(g);
        }
        if (k == 1 || c.steps % 8 == 0) {
            m.sweep(g);
        }
    }
    for (auto& g : m.regs) {
        m.sweep(g);
        m.verify_all(g);
    }
    m.finish_labels();
    c.label("address sweeps", m.sweeps);
    c.label("rejected sets", m.rejected);
    if (m.dense > 0 || m.rejected > 0 || (m.sweeps > 1 && c.steps > 8)) {
        c.nontrivial();
    }
}

// ------------------------------------------------------------------ exact fits

template<std::size_t Size, std::size_t Align, int Salt>
struct alignas(Align) blk {
    unsigned char d[Size];
    blk() = default;
    explicit blk(unsigned v) {
        for (std::size_t i = 0; i < Size; i++) {
            d[i] = byte(v, i);
        }
    }
    static unsigned char byte(unsigned v, std::size_t i) {
        return static_cast<unsigned char>(v * 31u + static_cast<unsigned>(i) * 7u + Salt + (i >> 8));
    }
    bool ok(unsigned v) const {
        std::size_t step = Size > 256 ? 37 : 1;
        for (std::size_t i = 0; i < Size; i += step) {
            if (d[i] != byte(v, i)) {
                return false;
            }
        }
        return d[Size - 1] == byte(v, Size - 1);
    }
};

constexpr std::size_t CH = 16384;

struct layout {
    const char* text;
    std::vector<std::pair<std::size_t, std::size_t>> parts; // size, align
    int verdict;                                           // 1 must be accepted, 0 must be rejected, 2 either
    entity (*create)(registry&, unsigned);
    void (*extents)(registry&, entity, std::vector<extent>&);
    bool (*ok)(registry&, entity, unsigned);
};

template<typename... B>
layout make_layout(const char* text) {
    layout l;
    l.text = text;
    l.parts = { { sizeof(B), alignof(B) }... };
    // accepted for sure when it fits whatever the order of the blocks, rejected for sure when the bytes exceed the chunk
    std::size_t bytes = sizeof(entity), pad = 0, maxalign = alignof(entity);
    for (auto [sz, al] : l.parts) {
        bytes += sz;
        maxalign = std::max(maxalign, al);
    }
    for (auto [sz, al] : l.parts) {
        // a block starts right after blocks whose sizes are multiples of smaller alignments
        bool exact = sizeof(entity) % al == 0;
        for (auto [s2, a2] : l.parts) {
            exact = exact && s2 % al == 0;
        }
        pad += exact ? 0 : al - 1;
    }
    l.verdict = bytes > CH ? 0 : bytes + pad <= CH ? 1 : 2;
    if (l.parts.size() == 1) {
        // the entity record comes with every set: one component starts at the next aligned offset, in either order
        auto [sz, al] = l.parts[0];
        std::size_t after = (sizeof(entity) + al - 1) / al * al + sz;
        std::size_t before = (sz + alignof(entity) - 1) / alignof(entity) * alignof(entity) + sizeof(entity);
        l.verdict = std::max(after, before) <= CH ? 1 : bytes > CH ? 0 : 2;
    }
    l.create = [](registry& r, unsigned v) -> entity {
        return r.create<B...>(B(v)...);
    };
    l.extents = [](registry& r, entity h, std::vector<extent>& out) {
        int i = 0;
        (..., [&] {
            auto a = reinterpret_cast<std::uintptr_t>(&r.get_entity(h).template get<B>());
            PBT_CHECK(a % alignof(B) == 0, "component " << i << " of entity " << show(h) << " at " << a
                                                        << " is not aligned to " << alignof(B));
            out.push_back({ a, a + sizeof(B), h, i++ });
        }());
    };
    l.ok = [](registry& r, entity h, unsigned v) { return (... && r.get_entity(h).template get<B>().ok(v)); };
    return l;
}

#define L1(S, A) make_layout<blk<S, A, 1>>(#S "/" #A)
#define L2(S, A, S2, A2) make_layout<blk<S, A, 1>, blk<S2, A2, 2>>(#S "/" #A " " #S2 "/" #A2)
#define L3(S, A, S2, A2, S3, A3) \
    make_layout<blk<S, A, 1>, blk<S2, A2, 2>, blk<S3, A3, 3>>(#S "/" #A " " #S2 "/" #A2 " " #S3 "/" #A3)

const std::vector<layout>& layouts() {
    static const std::vector<layout> v{
        L1(16376, 8), L1(16376, 4), L1(16376, 1), L1(16376, 2), L1(16377, 1), L1(16378, 2), L1(16380, 4), L1(16384, 8),
        L1(16384, 1), L1(16375, 1), L1(16368, 16), L1(16384, 16), L1(16352, 32), L1(16320, 64), L1(16384, 64),
        L1(16256, 128), L1(8184, 8), L1(8184, 1), L1(8185, 1), L1(8192, 8), L1(8176, 16), L1(8160, 32), L1(5453, 1),
        L1(4088, 8), L1(4089, 1), L1(4096, 64), L1(1016, 8), L1(1017, 1), L1(1, 1), L1(3, 1), L1(24, 8), L1(64, 64),
        L1(128, 128), L1(256, 256), L1(512, 512), L1(1024, 1024), L1(32, 32), L1(40, 4), L1(2, 2),
        L2(8184, 8, 8192, 8), L2(8188, 4, 8188, 4), L2(8189, 1, 8188, 1), L2(8192, 8, 8192, 8), L2(1, 1, 8, 8),
        L2(1, 1, 64, 64), L2(64, 64, 1, 1), L2(3, 1, 16, 16), L2(16, 16, 3, 1), L2(7, 1, 32, 32), L2(5, 1, 4, 4),
        L2(9, 1, 128, 128), L2(128, 128, 8, 8), L2(1000, 8, 1, 1), L2(2000, 16, 3, 1), L2(255, 1, 256, 256),
        L2(4000, 8, 64, 64), L2(16000, 8, 128, 128), L2(16128, 128, 128, 128), L2(16129, 1, 2, 2), L2(8000, 1, 8192, 64),
        L3(1, 1, 2, 2, 4, 4), L3(8, 8, 1, 1, 16, 16), L3(64, 64, 1, 1, 32, 32), L3(5, 1, 12, 4, 48, 16),
        L3(33, 1, 64, 64, 9, 1), L3(5000, 8, 5000, 8, 6376, 8), L3(5000, 8, 5000, 8, 6377, 1), L3(1, 1, 1, 1, 1, 1),
        L3(128, 128, 3, 1, 64, 64), L3(100, 4, 200, 8, 300, 2), L3(2, 2, 1, 1, 2, 2),
    };
    return v;
}

void case_fit(pbt::ctx& c) {
    auto& s = c.src;
    registry r;
    struct item {
        entity h;
        std::size_t l;
        unsigned v;
    };
    std::vector<item> ents;
    auto n = 1 + s.draw(3);
    bool dense = false, rejected = false;
    for (u64 k = 0; k < n; k++) {
        auto li = s.draw(layouts().size());
        auto& l = layouts()[li];
        std::size_t bytes = sizeof(entity);
        for (auto [sz, al] : l.parts) {
            bytes += sz;
        }
        auto cap = CH / bytes + 1;
        auto count = std::min<u64>(cap * s.draw(4) + s.draw(4), 6000);
        if (count == 0) {
            count = 1;
        }
        PBT_NOTE(c, "create {" << l.text << "} x" << count);
        try {
            for (u64 i = 0; i < count; i++) {
                auto v = static_cast<unsigned>(rt::mix(i * 7 + k) % 251);
                ents.push_back({ l.create(r, v), li, v });
                c.steps++;
            }
            PBT_CHECK(l.verdict != 0, "component set {" << l.text << "} cannot fit a chunk but was accepted");
            dense = dense || count > cap;
        } catch (const co_ecs::insufficient_chunk_size&) {
            PBT_CHECK(l.verdict != 1, "component set {" << l.text << "} fits a chunk but was rejected");
            rejected = true;
        }
        if (s.chance(1, 3) && !ents.empty()) {
            auto m = 1 + s.draw(ents.size());
            PBT_NOTE(c, "destroy " << m);
            for (u64 i = 0; i < m; i++) {
                auto j = rt::mix(i * 13 + m) % ents.size();
                r.destroy(ents[j].h);
                ents[j] = ents.back();
                ents.pop_back();
            }
        }
        std::vector<extent> v;
        for (auto& e : ents) {
            layouts()[e.l].extents(r, e.h, v);
        }
        const registry& cr = r;
        for (auto [e] : co_ecs::view<const entity&>(cr).each()) {
            auto a = reinterpret_cast<std::uintptr_t>(&e);
            PBT_CHECK(a % alignof(entity) == 0, "an entity record is not aligned");
            v.push_back({ a, a + sizeof(entity), e, -1 });
        }
        check_extents(v, [](const extent& x) {
            return x.t < 0 ? "the record of entity " + show(x.h)
                           : "component " + std::to_string(x.t) + " of entity " + show(x.h);
        });
        for (auto& e : ents) {
            PBT_CHECK(layouts()[e.l].ok(r, e.h, e.v),
                "a component of entity " << show(e.h) << " {" << layouts()[e.l].text << "} lost its value");
        }
    }
    if (rejected) {
        c.label("case: rejected set");
    }
    if (dense) {
        c.label("case: several chunks");
    }
    if (dense || rejected) {
        c.nontrivial();
    }
}

pbt::registrar r1({ "C07", "address", case_address, 30000, 800000,
    "random histories over arbitrary component sets (sizes 1-9000 bytes, alignments 1-64); the address range of every "
    "component of every living entity and of every entity record must be aligned, inside unpoisoned memory and disjoint "
    "from all others; sets that surely fit must be accepted, sets larger than a chunk rejected; non-trivial: more than 40 "
    "entities at a sweep, a rejected set, or several sweeps in a history of more than 8 operations" });
pbt::registrar r2({ "C07", "fit", case_fit, 40000, 800000,
    "registries filled with entities of 1-3 of 71 component layouts chosen around exact chunk fits and large alignments "
    "(up to 1024), with counts around multiples of the chunk capacity; same address oracle plus values, and acceptance "
    "exactly when the layout fits; non-trivial: several chunks of one layout, or a rejected layout" });
} // namespace
} // namespace rt
