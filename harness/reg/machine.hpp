// Model-based state machine over one or more registries.
#pragma once
#include "../pbt.hpp"
#include "types.hpp"

#include <algorithm>
#include <bit>
#include <memory>
#include <set>
#include <unordered_set>

namespace rt {

inline u64 key(entity e) {
    return (u64(e.id()) << 32) | e.generation();
}
inline std::string show(entity e) {
    return "(" + std::to_string(e.id()) + "," + std::to_string(e.generation()) + ")";
}

struct ment {
    entity h;
    std::uint32_t mask{};
    std::array<u64, NT> val{};
    bool has(int t) const {
        return (mask >> t) & 1u;
    }
    void put(int t, u64 v) {
        mask |= 1u << t;
        val[t] = v;
    }
    void drop(int t) {
        mask &= ~(1u << t);
    }
};

struct mreg {
    std::unique_ptr<registry> r = std::make_unique<registry>();
    std::vector<ment> ents;
    std::vector<entity> dead;
    std::unordered_set<u64> issued;
};

inline std::string show_mask(std::uint32_t m) {
    std::string s = "{";
    for (int i = 0; i < NT; i++) {
        if ((m >> i) & 1u) {
            s += (s.size() > 1 ? "," : "") + std::to_string(i);
        }
    }
    return s + "}";
}

/// conservative: component sets for which fits() holds must always be accepted
inline bool fits(std::uint32_t m) {
    std::size_t sum = 4 + 64;
    for (int i = 0; i < NT; i++) {
        if ((m >> i) & 1u) {
            sum += ops[i]->size + ops[i]->align;
        }
    }
    return sum <= 16384;
}
/// component sets for which this holds can never fit a 16 KB chunk
inline bool cannot_fit(std::uint32_t m) {
    std::size_t sum = sizeof(entity);
    for (int i = 0; i < NT; i++) {
        if ((m >> i) & 1u) {
            sum += ops[i]->size;
        }
    }
    return sum > 16384;
}
inline std::size_t approx_capacity(std::uint32_t m) {
    std::size_t sum = sizeof(entity);
    for (int i = 0; i < NT; i++) {
        if ((m >> i) & 1u) {
            sum += ops[i]->size;
        }
    }
    return 16384 / sum;
}

struct machine {
    pbt::ctx& c;
    pbt::source& s;
    std::vector<mreg> regs;
    std::vector<int> act; // active component types
    std::vector<int> act_combos;
    u64 vctr{};           // verification mode counter
    std::size_t max_entities = 3000;
    bool check_state = true;
    bool saw_multichunk{}, saw_recycle{}, saw_cross_chunk_destroy{};
    std::uint32_t max_id{};

    explicit machine(pbt::ctx& ctx, std::size_t nregs = 1) : c(ctx), s(ctx.src) {
        init_ops();
        T.reset();
        regs.resize(nregs);
    }

    // ------------------------------------------------------------ configuration
    void choose_types(bool allow_big = true) {
        static const std::vector<int> pool{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21,
            22, 23, 25, 26, 27 };
        auto k = 1 + s.draw(8);
        std::uint32_t m = 0;
        for (u64 i = 0; i < k; i++) {
            int t = pool[s.draw(pool.size())];
            if (!allow_big && (t == 22 || t == 23 || t == 13)) {
                t = 12;
            }
            m |= 1u << t;
        }
        if (s.chance(1, 2)) {
            m |= 1u << 12; // small chunks: 16 entities
        }
        act.clear();
        for (int i = 0; i < NT; i++) {
            if ((m >> i) & 1u) {
                act.push_back(i);
            }
        }
        act_combos.clear();
        auto n = 1 + s.draw(4);
        for (u64 i = 0; i < n; i++) {
            int ci = static_cast<int>(s.draw(combos.size()));
            std::uint32_t cm = combo_mask(ci);
            if (fits(cm)) {
                act_combos.push_back(ci);
            }
        }
        if (act_combos.empty()) {
            act_combos.push_back(0);
        }
        std::string l = "types";
        for (int t : act) {
            l += " " + std::to_string(t);
            max_id = std::max(max_id, ops[t]->id());
        }
        l += " combos";
        for (int t : act_combos) {
            l += " " + show_mask(combo_mask(t));
        }
        c.note(l);
        if (max_id >= 64) {
            c.label("ids>=64");
        }
        if (max_id >= 128) {
            c.label("ids>=128");
        }
    }
    static std::uint32_t combo_mask(int ci) {
        std::uint32_t m = 0;
        for (int t : combos[ci].types) {
            m |= 1u << t;
        }
        return m;
    }

    // ------------------------------------------------------------ checks
    static u64 read(int t, const void* p) {
        u64 v = ops[t]->val(p);
        return v;
    }
    void expect_val(const ment& e, int t, const void* p, const char* how) {
        u64 v = read(t, p);
        if (v != e.val[t]) {
            PBT_FAIL("entity " << show(e.h) << " component type " << t << " read through " << how << ": got "
                               << (v == BAD ? std::string("corrupt bytes") : std::to_string(v)) << ", expected "
                               << e.val[t]);
        }
    }

    void verify_entity(mreg& g, const ment& e, int mode) {
        registry& r = *g.r;
        const registry& cr = r;
        switch (mode & 3) {
        case 0:
            for (int t = 0; t < NT; t++) {
                bool h = ops[t]->has(r, e.h);
                PBT_CHECK(h == e.has(t), "entity " << show(e.h) << " has<" << t << "> is " << h);
                if (h) {
                    expect_val(e, t, ops[t]->get(r, e.h), "entity_ref::get");
                    expect_val(e, t, ops[t]->get_cref(r, e.h), "const entity_ref::get");
                }
            }
            break;
        case 1:
            for (int t = 0; t < NT; t++) {
                bool h = ops[t]->has_const(cr, e.h);
                PBT_CHECK(h == e.has(t), "entity " << show(e.h) << " const has<" << t << "> is " << h);
                if (h) {
                    expect_val(e, t, ops[t]->get_const(cr, e.h), "const_entity_ref::get");
                }
            }
            break;
        case 2: {
            std::uint32_t seen = 0;
            std::size_t n = 0;
            bool meta_ok = true;
            auto on = [&](const co_ecs::component_meta& meta, const void* p) {
                n++;
                for (int t = 0; t < NT; t++) {
                    if (ops[t]->id() == meta.id) {
                        seen |= 1u << t;
                        meta_ok = meta_ok && ops[t]->meta_ok(meta);
                        if (e.has(t)) {
                            vals_[t] = read(t, p);
                        }
                    }
                }
            };
            vals_ = e.val;
            if (vctr % 3 == 0) {
                r.get_entity(e.h).visit([&](const co_ecs::component_meta& m, void* p) { on(m, p); });
            } else if (vctr % 3 == 1) {
                cr.get_entity(e.h).visit([&](const co_ecs::component_meta& m, const void* p) { on(m, p); });
            } else {
                const auto ref = r.get_entity(e.h);
                ref.visit([&](const co_ecs::component_meta& m, const void* p) { on(m, p); });
            }
            PBT_CHECK(seen == e.mask && n == static_cast<std::size_t>(std::popcount(e.mask)),
                "visit of entity " << show(e.h) << " reported " << n << " components " << show_mask(seen)
                                   << ", expected " << show_mask(e.mask));
            PBT_CHECK(meta_ok, "visit reported wrong metadata for entity " << show(e.h));
            for (int t = 0; t < NT; t++) {
                if (e.has(t)) {
                    PBT_CHECK(vals_[t] == e.val[t], "visit of entity " << show(e.h) << " component type " << t << ": got "
                                                                      << vals_[t] << ", expected " << e.val[t]);
                }
            }
            break;
        }
        case 3: {
            auto ref = r.get_entity(e.h);
            PBT_CHECK(ref.archetype().components().size() == static_cast<std::size_t>(std::popcount(e.mask)),
                "archetype of entity " << show(e.h) << " has " << ref.archetype().components().size()
                                       << " components, expected " << show_mask(e.mask));
            for (int t = 0; t < NT; t++) {
                bool h = ops[t]->arch_contains(r, e.h);
                PBT_CHECK(h == e.has(t), "archetype of entity " << show(e.h) << " contains<" << t << "> is " << h);
                if (h && t != T8 && e.has(T8)) {
                    auto [a, b] = ops[t]->get2(r, e.h);
                    expect_val(e, t, a, "multi-get");
                    expect_val(e, T8, b, "multi-get");
                    auto [a2, b2] = ops[t]->get2_const(cr, e.h);
                    expect_val(e, t, a2, "const multi-get");
                    expect_val(e, T8, b2, "const multi-get");
                }
            }
            break;
        }
        }
        vctr++;
    }
    std::array<u64, NT> vals_{};

    void verify_all(mreg& g) {
        for (auto& e : g.ents) {
            verify_entity(g, e, static_cast<int>(vctr));
        }
    }
    void verify_some(mreg& g, const ment* touched) {
        if (!check_state) {
            return;
        }
        if (g.ents.size() <= 24) {
            verify_all(g);
            return;
        }
        if (touched) {
            verify_entity(g, *touched, static_cast<int>(vctr));
        }
        for (int i = 0; i < 6; i++) {
            verify_entity(g, g.ents[mix(vctr * 77 + i) % g.ents.size()], static_cast<int>(vctr));
        }
        verify_entity(g, g.ents.back(), static_cast<int>(vctr));
        if (c.steps % 64 == 0) {
            verify_all(g);
        }
    }

    // ------------------------------------------------------------ operations
    u64 value() {
        return s.chance(1, 8) ? s.draw(0) >> 8 : s.draw(1000);
    }
    mreg& reg() {
        return regs[regs.size() > 1 ? s.draw(regs.size()) : 0];
    }
    std::size_t reg_index(const mreg& g) const {
        return static_cast<std::size_t>(&g - regs.data());
    }
    int any_type() {
        return act[s.draw(act.size())];
    }
    ment* any_entity(mreg& g) {
        if (g.ents.empty()) {
            return nullptr;
        }
        // recency and boundaries matter: mix uniform, newest and oldest
        switch (s.weighted({ 5, 1, 1 })) {
        case 0:
            return &g.ents[s.draw(g.ents.size())];
        case 1:
            return &g.ents.back();
        default:
            return &g.ents.front();
        }
    }

    /// an entity with component t whose data is passed as an argument: the entity itself, one that shares its
    /// archetype (which is moved when the entity leaves), or any other
    ment* source_entity(mreg& g, ment* e, int t, bool other_only) {
        auto kind = s.draw(3);
        if (kind == 0 && !other_only) {
            return e->has(t) ? e : nullptr;
        }
        std::size_t at = kind == 1 ? g.ents.size() - 1 : s.draw(g.ents.size());
        ment* found = nullptr;
        for (std::size_t i = 0; i < g.ents.size() && i < 64; i++) {
            ment* o = &g.ents[(at + g.ents.size() - i) % g.ents.size()];
            if (o == e || !o->has(t)) {
                continue;
            }
            if (o->mask == e->mask) {
                return o;
            }
            found = found ? found : o;
        }
        return found;
    }

    virtual void on_created(mreg& g, const ment& e) {
        (void)g;
        (void)e;
    }
    virtual void on_removed(mreg& g, entity h) {
        (void)g;
        (void)h;
    }
    virtual ~machine() = default;

    ment& add(mreg& g, entity h) {
        ment e;
        e.h = h;
        g.ents.push_back(e);
        g.issued.insert(key(h));
        if (h.generation() > 0) {
            saw_recycle = true;
        }
        return g.ents.back();
    }

    void op_create_combo(mreg& g, int ci, bool quiet = false) {
        u64 vals[16];
        auto& k = combos[ci];
        u64 base = quiet ? mix(g.issued.size() * 131 + ci) % 100000 : value();
        for (std::size_t i = 0; i < k.types.size(); i++) {
            vals[i] = base + i;
        }
        entity h = k.create(*g.r, vals);
        auto& e = add(g, h);
        for (std::size_t i = 0; i < k.types.size(); i++) {
            e.put(k.types[i], ops[k.types[i]]->canon(vals[i]));
        }
        if (!quiet) {
            PBT_NOTE(c, "r" << reg_index(g) << " create" << show_mask(e.mask) << " -> " << show(h));
        }
        on_created(g, e);
    }
    void op_create1(mreg& g) {
        int t = any_type();
        u64 v = value();
        entity h = ops[t]->create1(*g.r, v);
        auto& e = add(g, h);
        e.put(t, ops[t]->canon(v));
        PBT_NOTE(c, "r" << reg_index(g) << " create{" << t << "} -> " << show(h));
        on_created(g, e);
    }
    void op_create(mreg& g) {
        if (g.ents.size() >= max_entities) {
            return;
        }
        if (s.chance(1, 3) && fits(1u << act[0])) {
            op_create1(g);
        } else {
            op_create_combo(g, act_combos[s.draw(act_combos.size())]);
        }
    }
    void op_bulk_create(mreg& g) {
        int ci = act_combos[s.draw(act_combos.size())];
        auto cap = approx_capacity(combo_mask(ci));
        // around multiples of the chunk capacity
        std::size_t n = s.chance(1, 2) ? cap * s.draw(4) + s.draw(5) : s.small(cap * 3 + 4);
        n = std::min(n, max_entities > g.ents.size() ? max_entities - g.ents.size() : 0);
        PBT_NOTE(c, "r" << reg_index(g) << " create" << show_mask(combo_mask(ci)) << " x" << n);
        if (n > cap) {
            saw_multichunk = true;
        }
        for (std::size_t i = 0; i < n; i++) {
            op_create_combo(g, ci, true);
        }
    }
    void op_set(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        int t = any_type();
        if (!fits(e->mask | (1u << t))) {
            return;
        }
        u64 v = value();
        auto form = s.weighted({ 4, 2, 3, 1, 1, 1 });
        const char* forms[] = { "set(T&&)", "set(const T&)", "set(args)", "set(a field)", "set(a component)", "set(take)" };
        ment* from = form >= 3 ? source_entity(g, e, form == 3 ? T8 : t, form == 5) : nullptr;
        PBT_NOTE(c, "r" << reg_index(g) << " " << forms[form] << " type " << t << " of " << show(e->h) << " = " << v
                        << (from ? " from " + show(from->h) : std::string()));
        if (form == 1 && ops[t]->set_copy) {
            ops[t]->set_copy(*g.r, e->h, v);
        } else if (form == 2) {
            ops[t]->set_args(*g.r, e->h, v);
        } else if (form == 3 && ops[t]->set_alias && from) {
            std::memcpy(&v, ops[T8]->get(*g.r, from->h), 8);
            ops[t]->set_alias(*g.r, e->h, from->h);
        } else if (form == 4 && ops[t]->set_self && from) {
            v = from->val[t];
            ops[t]->set_self(*g.r, e->h, from->h);
        } else if (form == 5 && from) {
            u64 w = v;
            v = from->val[t];
            ops[t]->set_take(*g.r, e->h, from->h);
            ops[t]->write(*g.r, from->h, w); // it has been moved from
            from->put(t, ops[t]->canon(w));
        } else {
            ops[t]->set_move(*g.r, e->h, v);
        }
        e->put(t, ops[t]->canon(v));
        verify_some(g, e);
    }
    void op_goi(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        int t = any_type();
        if (!fits(e->mask | (1u << t))) {
            return;
        }
        u64 v = value();
        PBT_NOTE(c, "r" << reg_index(g) << " get_or_insert type " << t << " of " << show(e->h) << " = " << v);
        void* p = nullptr;
        ment* from = s.chance(1, 4) && ops[t]->goi_alias ? source_entity(g, e, T8, false) : nullptr;
        if (from) {
            std::memcpy(&v, ops[T8]->get(*g.r, from->h), 8);
            p = ops[t]->goi_alias(*g.r, e->h, from->h);
        } else {
            p = ops[t]->goi(*g.r, e->h, v);
        }
        if (!e->has(t)) {
            e->put(t, ops[t]->canon(v));
        }
        if (check_state) {
            expect_val(*e, t, p, "get_or_insert result");
            PBT_CHECK(p == ops[t]->get(*g.r, e->h), "get_or_insert returned a reference to something else");
        }
        verify_some(g, e);
    }
    void op_write(mreg& g) {
        ment* e = any_entity(g);
        if (!e || e->mask == 0) {
            return;
        }
        int t = any_type();
        if (!e->has(t)) {
            return;
        }
        u64 v = value();
        PBT_NOTE(c, "r" << reg_index(g) << " write type " << t << " of " << show(e->h) << " = " << v);
        ops[t]->write(*g.r, e->h, v);
        e->put(t, ops[t]->canon(v));
        verify_some(g, e);
    }
    void op_remove(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        int t = any_type();
        PBT_NOTE(c, "r" << reg_index(g) << " remove type " << t << " of " << show(e->h));
        ops[t]->remove(*g.r, e->h);
        e->drop(t);
        verify_some(g, e);
    }
    void forget(mreg& g, std::size_t i) {
        entity h = g.ents[i].h;
        g.dead.push_back(h);
        if (i + 1 != g.ents.size()) {
            g.ents[i] = std::move(g.ents.back());
        }
        g.ents.pop_back();
        on_removed(g, h);
    }
    void op_destroy(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        entity h = e->h;
        PBT_NOTE(c, "r" << reg_index(g) << " destroy " << show(h));
        if (s.chance(1, 2)) {
            g.r->destroy(h);
        } else {
            g.r->get_entity(h).destroy();
        }
        forget(g, static_cast<std::size_t>(e - g.ents.data()));
        verify_some(g, nullptr);
    }
    void op_bulk_destroy(mreg& g) {
        if (g.ents.empty()) {
            return;
        }
        auto mode = s.draw(4);
        auto n = g.ents.size();
        if (mode == 0) { // everything
            PBT_NOTE(c, "r" << reg_index(g) << " destroy all, newest first");
            while (!g.ents.empty()) {
                g.r->destroy(g.ents.back().h);
                forget(g, g.ents.size() - 1);
            }
        } else if (mode == 1) {
            auto k = 1 + s.draw(n);
            PBT_NOTE(c, "r" << reg_index(g) << " destroy " << k << " from the front");
            for (u64 i = 0; i < k && !g.ents.empty(); i++) {
                g.r->destroy(g.ents.front().h);
                forget(g, 0);
            }
        } else if (mode == 2) {
            auto stride = 2 + s.draw(5);
            PBT_NOTE(c, "r" << reg_index(g) << " destroy every " << stride << "th");
            for (std::size_t i = g.ents.size(); i-- > 0;) {
                if (i % stride == 0) {
                    g.r->destroy(g.ents[i].h);
                    forget(g, i);
                }
            }
        } else {
            auto k = 1 + s.draw(std::min<std::size_t>(n, 64));
            PBT_NOTE(c, "r" << reg_index(g) << " destroy " << k << " pseudo-random");
            for (u64 i = 0; i < k && !g.ents.empty(); i++) {
                auto j = mix(i * 31 + k + n) % g.ents.size();
                g.r->destroy(g.ents[j].h);
                forget(g, j);
            }
        }
        if (n > 40) {
            saw_cross_chunk_destroy = true;
        }
        verify_some(g, nullptr);
    }

    // ------------------------------------------------------------ transfers
    void copy_model(const ment& from, ment& to) {
        to.mask = from.mask;
        to.val = from.val;
    }
    static bool copyable(std::uint32_t m) {
        for (int t = 0; t < NT; t++) {
            if (((m >> t) & 1u) && !ops[t]->copyable) {
                return false;
            }
        }
        return true;
    }
    /// clone / copy / move, optionally into a reserved entity
    void op_transfer(mreg& src, mreg& dst, int kind) { // 0 clone 1 copy 2 move
        ment* e = any_entity(src);
        if (!e) {
            return;
        }
        mreg& d = kind == 0 ? src : dst;
        if (kind != 2 && !copyable(e->mask)) {
            return;
        }
        if (kind == 2 && &src == &dst) {
            return;
        }
        ment from = *e;
        auto place = s.draw(4); // 0,1: none, 2: reserve then sync first, 3: reserve, transfer, sync
        bool via_const = kind == 1 && s.chance(1, 2);
        registry& sr = *src.r;
        const registry& csr = sr;
        entity h;
        PBT_NOTE(c, (kind == 0 ? "clone " : kind == 1 ? "copy " : "move ")
                        << "r" << reg_index(src) << show(from.h) << show_mask(from.mask) << " to r" << reg_index(d)
                        << (place >= 2 ? " into a reserved entity" : ""));
        if (place < 2) {
            if (kind == 0) {
                h = sr.get_entity(from.h).clone();
            } else if (kind == 1) {
                h = via_const ? csr.get_entity(from.h).copy(*d.r) : sr.get_entity(from.h).copy(*d.r);
            } else {
                h = sr.get_entity(from.h).move(*d.r);
            }
        } else {
            auto ph = d.r->reserve();
            if (place == 2) {
                d.r->sync();
            }
            if (kind == 0) {
                h = sr.get_entity(from.h).clone(ph);
            } else if (kind == 1) {
                h = via_const ? csr.get_entity(from.h).copy(*d.r, ph) : sr.get_entity(from.h).copy(*d.r, ph);
            } else {
                h = sr.get_entity(from.h).move(*d.r, ph);
            }
            if (place == 3) {
                d.r->sync();
            }
            PBT_CHECK(h == ph.get_entity(), "transfer into a reserved entity returned a different entity");
        }
        if (kind == 2) {
            std::size_t i = 0;
            while (src.ents[i].h != from.h) {
                i++;
            }
            forget(src, i);
        }
        auto& n = add(d, h);
        copy_model(from, n);
        on_created(d, n);
        after_transfer(src, d, from, h, kind);
    }
    virtual void after_transfer(mreg& src, mreg& dst, const ment& from, entity h, int kind) {
        verify_some(dst, &dst.ents.back());
        verify_some(src, nullptr);
        (void)from;
        (void)h;
        (void)kind;
    }

    /// the entities an unconstrained view reports are exactly the living ones
    void check_entity_view(mreg& g) {
        std::vector<u64> seen;
        const registry& cr = *g.r;
        if (vctr++ % 2) {
            for (auto [e] : co_ecs::view<const entity&>(cr).each()) {
                seen.push_back(key(e));
            }
        } else {
            co_ecs::view<const entity&>(cr).each([&](const entity& e) { seen.push_back(key(e)); });
        }
        std::vector<u64> want;
        for (auto& e : g.ents) {
            want.push_back(key(e.h));
        }
        std::sort(seen.begin(), seen.end());
        std::sort(want.begin(), want.end());
        PBT_CHECK(seen == want, "a view over all entities reports " << seen.size() << " entities, " << want.size()
                                                                  << " are alive (or the handles differ)");
    }
    /// living objects of every tracked component type == entities holding it (+ extra)
    void check_counts_of_objects(const std::array<std::int64_t, NT>* extra = nullptr) {
        check_tracker();
        for (int t = 0; t < NT; t++) {
            if (!ops[t]->tracked) {
                continue;
            }
            std::int64_t want = extra ? (*extra)[t] : 0;
            for (auto& g : regs) {
                for (auto& e : g.ents) {
                    want += e.has(t);
                }
            }
            PBT_CHECK(T.count[t] == want, "component type " << t << ": " << T.count[t]
                                                            << " living objects, " << want << " entities hold one");
        }
    }
    void check_tracker() {
        if (!T.violation.empty()) {
            PBT_FAIL("component lifecycle: " << T.violation);
        }
    }
    void finish_labels() {
        std::size_t n = 0;
        for (auto& g : regs) {
            n = std::max(n, g.issued.size());
        }
        if (saw_multichunk) {
            c.label("case: multi-chunk archetype");
        }
        if (saw_recycle) {
            c.label("case: recycled id");
        }
        if (saw_cross_chunk_destroy) {
            c.label("case: bulk destroy");
        }
        c.label("operations", c.steps);
        c.label("entities issued", n);
    }
};

} // namespace rt
