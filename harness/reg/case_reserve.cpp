// C09 (sequential part): reservations interleaved with creations and destructions.
#include "machine.hpp"
namespace rt {
namespace {
struct res : machine {
    using machine::machine;
    struct rsv {
        co_ecs::placeholder_entity p;
        bool synced;
        bool filled;
    };
    std::vector<std::unordered_set<u64>> ever;
    std::vector<std::vector<rsv>> held; // reserved, not filled yet
    bool mixed_create{}, mixed_destroy{}, reused{};
    u64 reserved{};

    void init() {
        ever.resize(regs.size());
        held.resize(regs.size());
    }
    std::size_t pending(std::size_t i) {
        std::size_t n = 0;
        for (auto& r : held[i]) {
            n += !r.synced;
        }
        return n;
    }
    void fresh(std::size_t i, entity h, const char* how) {
        PBT_CHECK(h.valid(), how << " gave an invalid handle");
        PBT_CHECK(ever[i].insert(key(h)).second, how << " gave handle " << show(h) << ", which was given out before");
        reused = reused || h.generation() > 0;
    }
    void on_created(mreg& g, const ment& e) override {
        auto i = reg_index(g);
        if (filling && key(e.h) == fill_key) {
            return;
        }
        fresh(i, e.h, "creation");
    }
    void on_removed(mreg& g, entity h) override {
        PBT_CHECK(!g.r->alive(h), "destroyed entity " << show(h) << " is still alive");
    }
    bool filling{};
    u64 fill_key{};

    void op_reserve(mreg& g) {
        auto i = reg_index(g);
        auto n = 1 + s.small(6);
        for (u64 k = 0; k < n; k++) {
            auto p = g.r->reserve();
            PBT_NOTE(c, "r" << i << " reserve -> " << show(p.get_entity()));
            fresh(i, p.get_entity(), "reserve");
            for (auto& e : g.ents) {
                PBT_CHECK(e.h.id() != p.get_entity().id(),
                    "reserve gave " << show(p.get_entity()) << ", the id of living entity " << show(e.h));
            }
            held[i].push_back({ p, false, false });
            reserved++;
        }
    }
    void op_sync(mreg& g) {
        auto i = reg_index(g);
        PBT_NOTE(c, "r" << i << " sync");
        g.r->sync();
        synced(g);
    }
    void synced(mreg& g) {
        auto i = reg_index(g);
        for (auto& r : held[i]) {
            r.synced = true;
        }
        check(g);
    }
    /// puts an entity into a reserved handle
    void op_fill(mreg& g, mreg& src) {
        auto i = reg_index(g);
        if (held[i].empty()) {
            return;
        }
        auto k = s.draw(held[i].size());
        auto r = held[i][k];
        ment* e = any_entity(src);
        int kind = &src == &g ? 0 : 1 + static_cast<int>(s.draw(2));
        if (!e || (kind != 2 && !copyable(e->mask))) {
            return;
        }
        ment from = *e;
        entity h;
        PBT_NOTE(c, (kind == 0 ? "clone " : kind == 1 ? "copy " : "move ") << "r" << reg_index(src) << show(from.h)
                        << " into reserved r" << i << show(r.p.get_entity()) << (r.synced ? "" : " (not synced)"));
        if (kind == 0) {
            h = g.r->get_entity(from.h).clone(r.p);
        } else if (kind == 1) {
            h = src.r->get_entity(from.h).copy(*g.r, r.p);
        } else {
            h = src.r->get_entity(from.h).move(*g.r, r.p);
        }
        PBT_CHECK(h == r.p.get_entity(), "filling reserved " << show(r.p.get_entity()) << " returned " << show(h));
        if (!r.synced) {
            g.r->sync();
            PBT_NOTE(c, "r" << i << " sync");
            for (auto& q : held[i]) {
                q.synced = true;
            }
        }
        held[i].erase(held[i].begin() + static_cast<std::ptrdiff_t>(k));
        if (kind == 2) {
            for (std::size_t j = 0; j < src.ents.size(); j++) {
                if (src.ents[j].h == from.h) {
                    forget(src, j);
                    break;
                }
            }
        }
        auto& n = add(g, h);
        copy_model(from, n);
        verify_some(g, &g.ents.back());
        check(g);
    }
    void op_command(mreg& g) {
        auto i = reg_index(g);
        int t = any_type();
        if (!fits(1u << t)) {
            return;
        }
        u64 v = value();
        entity h = ops[t]->cmd_create1(*g.r, v);
        PBT_NOTE(c, "r" << i << " command create{" << t << "} -> " << show(h) << ", flush");
        fresh(i, h, "command_writer::create");
        co_ecs::command_buffer::flush(*g.r);
        auto& e = add(g, h);
        e.put(t, ops[t]->canon(v));
        synced(g);
    }
    void check(mreg& g) {
        auto i = reg_index(g);
        for (auto& r : held[i]) {
            if (r.synced) {
                PBT_CHECK(g.r->alive(r.p.get_entity()), "reserved entity " << show(r.p.get_entity())
                                                                           << " is not alive after sync");
            }
        }
        for (auto& e : g.ents) {
            PBT_CHECK(g.r->alive(e.h), "entity " << show(e.h) << " is not alive");
        }
        for (auto h : g.dead) {
            PBT_CHECK(!g.r->alive(h), "destroyed entity " << show(h) << " is alive again");
        }
    }
};

void case_reserve(pbt::ctx& c) {
    auto& s = c.src;
    res m(c, s.chance(1, 3) ? 2 : 1);
    m.init();
    m.choose_types(false);
    m.max_entities = 120;
    static const std::vector<std::vector<unsigned>> profiles{
        // create destroy bulkdestroy reserve sync fill command set
        { 6, 5, 1, 6, 3, 3, 1, 1 },
        { 4, 8, 2, 8, 1, 1, 1, 0 },
        { 6, 4, 0, 3, 1, 6, 3, 1 },
    };
    auto w = profiles[s.draw(profiles.size())];
    s.set_len(4 + s.small(60));
    while (s.more()) {
        c.steps++;
        auto& g = m.reg();
        auto i = m.reg_index(g);
        switch (s.weighted(w)) {
        case 0:
            m.mixed_create = m.mixed_create || m.pending(i) > 0;
            m.op_create(g);
            break;
        case 1:
            m.mixed_destroy = m.mixed_destroy || (m.pending(i) > 0 && !g.ents.empty());
            m.op_destroy(g);
            break;
        case 2:
            m.op_bulk_destroy(g);
            break;
        case 3:
            m.op_reserve(g);
            break;
        case 4:
            m.op_sync(g);
            break;
        case 5:
            m.op_fill(g, m.reg());
            break;
        case 6:
            m.op_command(g);
            break;
        default:
            m.op_set(g);
        }
        for (auto& q : m.regs) {
            m.check(q);
        }
    }
    for (auto& q : m.regs) {
        m.op_sync(q);
        m.verify_all(q);
        // everything reserved keeps its own handle: new entities are different
        for (int k = 0; k < 20; k++) {
            if (fits(1u << m.act[0])) {
                m.op_create1(q);
            }
        }
        m.check(q);
        m.verify_all(q);
    }
    c.label("reservations", m.reserved);
    if (m.mixed_create) {
        c.label("case: create while reservations are pending");
    }
    if (m.mixed_destroy) {
        c.label("case: destroy while reservations are pending");
    }
    if (m.reserved >= 2 && m.reused && (m.mixed_create || m.mixed_destroy)) {
        c.nontrivial();
    }
}
/// the same with thousands of handles at a time
void case_bulk(pbt::ctx& c) {
    auto& s = c.src;
    struct one {
        u64 v;
    };
    co_ecs::registry r;
    std::unordered_set<u64> ever;
    std::vector<std::pair<entity, u64>> live;
    std::vector<entity> dead;
    struct rsv {
        co_ecs::placeholder_entity p;
        bool synced;
    };
    std::vector<rsv> held;
    u64 next = 1;
    bool big_pending = false, big_free = false;
    auto fresh = [&](entity h, const char* how) {
        PBT_CHECK(h.valid() && ever.insert(key(h)).second, how << " gave handle " << show(h) << ", which was given out before");
    };
    auto amount = [&]() -> u64 {
        switch (s.weighted({ 3, 6, 4, 1 })) {
        case 0: return s.small(20);
        case 1: return 100 + s.draw(200);
        case 2: return s.draw(3000);
        default: return 30000 + s.draw(40000);
        }
    };
    auto synced = [&] {
        for (auto& p : held) {
            p.synced = true;
        }
    };
    auto verify = [&] {
        for (auto& p : held) {
            PBT_CHECK(!p.synced || r.alive(p.p.get_entity()), "reserved entity " << show(p.p.get_entity()) << " is not alive after sync");
        }
        for (auto& [h, v] : live) {
            PBT_CHECK(r.alive(h) && std::as_const(r).get_entity(h).get<one>().v == v, "entity " << show(h) << " is not alive or has lost its value");
        }
        for (auto h : dead) {
            PBT_CHECK(!r.alive(h), "destroyed entity " << show(h) << " is alive again");
        }
    };
    u64 total = 0;
    s.set_len(5 + s.small(9));
    while (s.more() && total < 250000) {
        c.steps++;
        auto what = s.weighted({ 4, 4, 5, 3, 2 });
        auto n = what == 3 ? 0 : amount();
        total += n;
        switch (what) {
        case 0:
            PBT_NOTE(c, "create " << n);
            for (u64 k = 0; k < n; k++) {
                entity h = r.create<one>({ next });
                fresh(h, "create");
                live.emplace_back(h, next++);
            }
            break;
        case 1: {
            n = std::min<u64>(n, live.size());
            auto from = s.draw(3); // newest first, oldest first, spread
            PBT_NOTE(c, "destroy " << n << " of " << live.size() << " way " << from);
            for (u64 k = 0; k < n; k++) {
                auto i = from == 0 ? live.size() - 1 : from == 1 ? 0 : (k * 7919) % live.size();
                r.destroy(live[i].first);
                dead.push_back(live[i].first);
                live[i] = live.back();
                live.pop_back();
            }
            big_free = big_free || n > 255;
            break;
        }
        case 2:
            PBT_NOTE(c, "reserve " << n);
            for (u64 k = 0; k < n; k++) {
                auto p = r.reserve();
                fresh(p.get_entity(), "reserve");
                held.push_back({ p, false });
            }
            big_pending = big_pending || n > 255;
            break;
        case 3:
            PBT_NOTE(c, "sync");
            r.sync();
            synced();
            verify();
            break;
        default: { // fill reserved ones
            if (live.empty()) {
                break;
            }
            r.sync();
            synced();
            n = std::min<u64>(n, held.size());
            PBT_NOTE(c, "sync, fill " << n);
            auto v = live[0].second;
            for (u64 k = 0; k < n; k++) {
                entity h = r.get_entity(live[0].first).clone(held.back().p);
                PBT_CHECK(h == held.back().p.get_entity(), "clone into " << show(held.back().p.get_entity()) << " returned " << show(h));
                live.emplace_back(h, v);
                held.pop_back();
            }
        }
        }
    }
    r.sync();
    synced();
    verify();
    for (int k = 0; k < 50; k++) {
        entity h = r.create<one>({ next });
        fresh(h, "create");
        live.emplace_back(h, next++);
    }
    verify();
    c.label("handles", ever.size());
    if (big_pending && big_free) {
        c.nontrivial();
    }
}
pbt::registrar r2({ "C09", "bulk", case_bulk, 6000, 200000,
    "histories of up to 11 bulk operations, each creating, destroying, reserving or filling up to 70000 handles; same oracle; "
    "non-trivial: more than 255 reservations pending at once and more than 255 destructions in a row" });
pbt::registrar r1({ "C09", "sequential", case_reserve, 150000, 4000000,
    "random histories of reserve, sync, create, destroy, clone/copy/move into reserved entities and flushed creation "
    "commands; every handle ever given out must be new, reserved handles are alive after sync, living entities keep their "
    "values, destroyed ones stay dead; non-trivial: at least 2 reservations, a reused id, and a creation or destruction "
    "while reservations were pending" });
} // namespace
} // namespace rt
