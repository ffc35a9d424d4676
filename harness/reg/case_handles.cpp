// C02: handles are unique, alive exactly while their entity lives, and useless otherwise.
#include "probes.hpp"
namespace rt {
namespace {
struct handles : machine {
    using machine::machine;
    std::vector<std::unordered_set<u64>> live;
    u64 probes{};

    void on_created(mreg& g, const ment& e) override {
        auto i = reg_index(g);
        live.resize(regs.size());
        ever.resize(regs.size());
        PBT_CHECK(ever[i].insert(key(e.h)).second, "the new entity got handle " << show(e.h) << ", already given out before");
        live[i].insert(key(e.h));
        PBT_CHECK(e.h.valid(), "the new entity got an invalid handle");
        check_alive(g, e.h, true);
    }
    void on_removed(mreg& g, entity h) override {
        live.resize(regs.size());
        live[reg_index(g)].erase(key(h));
        check_alive(g, h, false);
    }
    std::vector<std::unordered_set<u64>> ever;

    void check_alive(mreg& g, entity h, bool want) {
        const registry& cr = *g.r;
        bool a = g.r->alive(h);
        bool b = g.r->get_entity(h).alive();
        bool c2 = cr.get_entity(h).alive();
        bool d = cr.alive(h);
        PBT_CHECK(a == want && b == want && c2 == want && d == want,
            "handle " << show(h) << " of r" << reg_index(g) << (want ? " is not" : " is") << " reported alive");
    }
    void check_counts(mreg& g) {
        const registry& cr = *g.r;
        PBT_CHECK(cr.size() == g.ents.size(), "r" << reg_index(g) << " size() is " << cr.size() << " with " << g.ents.size()
                                                  << " living entities");
        PBT_CHECK(cr.empty() == g.ents.empty(), "empty() is wrong with " << g.ents.size() << " living entities");
    }
    void check_all(mreg& g) {
        live.resize(regs.size());
        for (auto& e : g.ents) {
            check_alive(g, e.h, true);
            const registry& cr = *g.r;
            auto ref = g.r->get_entity(e.h);
            auto cref = cr.get_entity_const(e.h);
            PBT_CHECK(entity(ref) == e.h && entity(cref) == e.h && entity(cr.get_entity(e.h)) == e.h, "get_entity changes the handle");
            PBT_CHECK(static_cast<bool>(ref) && static_cast<bool>(cref) && ref.alive() && cref.alive(),
                "the reference to living entity " << show(e.h) << " counts as invalid");
        }
        for (auto h : g.dead) {
            check_alive(g, h, false);
        }
        check_alive(g, entity::invalid(), false);
        PBT_CHECK(!static_cast<bool>(g.r->get_entity(entity::invalid())) && !static_cast<bool>(std::as_const(*g.r).get_entity(entity::invalid())),
            "a reference to the invalid entity counts as valid");
        // never given out; an id may have been passed over, so ids are not simply counted
        entity next(static_cast<std::uint32_t>(g.issued.size()), 0);
        if (!g.issued.count(key(next))) {
            check_alive(g, next, false);
        }
        check_counts(g);
    }
    void probe(mreg& g) {
        live.resize(regs.size());
        entity h = dead_handle(*this, g, live[reg_index(g)]);
        int p = static_cast<int>(s.draw(DEAD_PROBES));
        int t = any_type();
        auto& o = regs[(reg_index(g) + 1) % regs.size()];
        if (p == 18 && regs.size() == 1) {
            p = 16;
        }
        bool threw = probe_dead(*this, g, o, h, p, t);
        PBT_CHECK(threw, probe_name(p) << " through handle " << show(h) << ", which is not alive, did not raise entity_not_found");
        probes++;
        check_counts(g);
        check_counts(o);
        if (g.issued.count(key(h))) {
            check_alive(g, h, false); // a handle nobody was given may well be the next one
        }
        verify_some(g, nullptr);
    }
};

void case_handles(pbt::ctx& c) {
    auto& s = c.src;
    handles m(c, s.chance(1, 3) ? 2 : 1);
    m.choose_types(false);
    m.max_entities = 1500;
    static const std::vector<std::vector<unsigned>> profiles{
        // create bulk destroy bulkdestroy probe transfer set remove
        { 8, 1, 6, 1, 4, 2, 1, 1 },
        { 4, 2, 3, 3, 3, 1, 1, 1 },
        { 6, 0, 6, 0, 6, 5, 1, 1 },
        { 5, 0, 10, 0, 2, 0, 0, 0 },
    };
    auto w = profiles[s.draw(profiles.size())];
    s.set_len(4 + s.small(s.chance(1, 8) ? 200 : 70));
    while (s.more()) {
        c.steps++;
        auto& g = m.reg();
        switch (s.weighted(w)) {
        case 0:
            m.op_create(g);
            break;
        case 1:
            m.op_bulk_create(g);
            break;
        case 2:
            m.op_destroy(g);
            break;
        case 3:
            m.op_bulk_destroy(g);
            break;
        case 4:
            m.probe(g);
            break;
        case 5:
            m.op_transfer(g, m.reg(), static_cast<int>(s.draw(3)));
            break;
        case 6:
            m.op_set(g);
            break;
        default:
            m.op_remove(g);
        }
        for (auto& q : m.regs) {
            m.check_counts(q);
        }
        if (c.steps % 8 == 0 || m.regs[0].issued.size() < 64) {
            for (auto& q : m.regs) {
                m.check_all(q);
            }
        }
    }
    for (auto& q : m.regs) {
        m.check_all(q);
        m.verify_all(q);
    }
    m.finish_labels();
    c.label("operations through dead handles", m.probes);
    if (m.saw_recycle && m.probes > 0) {
        c.nontrivial();
    }
}
/// few ids recycled very often, and in several ways
void case_recycle(pbt::ctx& c) {
    auto& s = c.src;
    struct one {
        u64 v;
    };
    struct two {
        u64 v;
    };
    registry regs[2];
    std::unordered_set<u64> ever[2];
    std::vector<std::pair<entity, u64>> live[2];
    std::vector<entity> first[2]; // handles which died early
    u64 next = 1;
    auto fresh = [&](int i, entity h, const char* how) {
        PBT_CHECK(h.valid() && ever[i].insert(key(h)).second, how << " gave handle " << show(h) << " of r" << i << ", which was given out before");
    };
    auto died = [&](int i, entity h) {
        PBT_CHECK(!regs[i].alive(h), "handle " << show(h) << " of r" << i << " is alive though its entity is gone");
        if (first[i].size() < 40) {
            first[i].push_back(h);
        }
    };
    auto verify = [&] {
        for (int i = 0; i < 2; i++) {
            for (auto h : first[i]) {
                PBT_CHECK(!regs[i].alive(h), "dead handle " << show(h) << " of r" << i << " is alive again");
                bool threw = false;
                try {
                    (void)regs[i].get_entity(h).has<one>();
                } catch (const co_ecs::entity_not_found&) {
                    threw = true;
                }
                PBT_CHECK(threw, "dead handle " << show(h) << " of r" << i << " can be used again");
            }
            for (auto& [h, v] : live[i]) {
                PBT_CHECK(regs[i].alive(h), "living entity " << show(h) << " of r" << i << " is not alive");
                PBT_CHECK(std::as_const(regs[i]).get_entity(h).get<one>().v == v, "living entity " << show(h) << " of r" << i << " has another value");
            }
            PBT_CHECK(regs[i].size() == live[i].size(), "r" << i << " size() is " << regs[i].size() << " with " << live[i].size() << " living entities");
        }
    };
    auto create = [&](int i) {
        entity h = next % 3 ? entity(regs[i].create<one>({ next })) : entity(regs[i].create<one, two>({ next }, { next }));
        fresh(i, h, "create");
        live[i].emplace_back(h, next++);
    };
    auto pop = [&](int i, std::size_t k) {
        auto h = live[i][k].first;
        live[i][k] = live[i].back();
        live[i].pop_back();
        return h;
    };
    u64 total = 0, most = 0;
    s.set_len(2 + s.small(10));
    while (s.more() && total < 200000) {
        c.steps++;
        int i = static_cast<int>(s.draw(2));
        u64 n = 0;
        switch (s.weighted({ 4, 4, 4, 1 })) {
        case 0: n = 1 + s.small(30); break;
        case 1: n = 230 + s.draw(80); break;
        case 2: n = s.draw(5000); break;
        default: n = 65000 + s.draw(1200); break;
        }
        total += n;
        most = std::max(most, n);
        auto how = s.draw(6);
        PBT_NOTE(c, "r" << i << " x" << n << " way " << how << ", living " << live[i].size());
        switch (how) {
        case 0: // create and destroy in turn
            for (u64 k = 0; k < n; k++) {
                create(i);
                auto h = pop(i, live[i].size() - 1);
                regs[i].destroy(h);
                died(i, h);
            }
            break;
        case 1: // through the reference, the oldest goes
            for (u64 k = 0; k < n; k++) {
                create(i);
                auto h = pop(i, 0);
                regs[i].get_entity(h).destroy();
                died(i, h);
            }
            break;
        case 2: // moved to the other registry and back
            for (u64 k = 0; k < n; k++) {
                if (live[i].empty()) {
                    create(i);
                }
                auto v = live[i].back().second;
                auto h = pop(i, live[i].size() - 1);
                entity o = regs[i].get_entity(h).move(regs[1 - i]);
                died(i, h);
                fresh(1 - i, o, "move");
                live[1 - i].emplace_back(o, v);
                i = 1 - i;
            }
            break;
        case 3: // reserved, filled by a clone, destroyed
            n = std::min<u64>(n, 3000);
            if (live[i].empty()) {
                create(i);
            }
            for (u64 k = 0; k < n; k++) {
                auto p = regs[i].reserve();
                fresh(i, p.get_entity(), "reserve");
                regs[i].sync();
                entity h = regs[i].get_entity(live[i][0].first).clone(p);
                PBT_CHECK(h == p.get_entity(), "clone into " << show(p.get_entity()) << " returned " << show(h));
                regs[i].destroy(h);
                died(i, h);
            }
            break;
        case 4: // created and destroyed by commands
            n = std::min<u64>(n, 1000);
            for (u64 k = 0; k < n; k++) {
                co_ecs::command_writer w(regs[i]);
                auto e = w.create<one>({ next });
                entity h = e;
                fresh(i, h, "a creation command");
                if (k % 2) {
                    e.destroy();
                }
                co_ecs::command_buffer::flush(regs[i]);
                if (k % 2 == 0) {
                    PBT_CHECK(regs[i].alive(h), "the flushed entity " << show(h) << " is not alive");
                    regs[i].destroy(h);
                }
                died(i, h);
            }
            break;
        default: { // many at once
            n = std::min<u64>(n, 3000);
            auto from = live[i].size();
            for (u64 k = 0; k < n; k++) {
                create(i);
            }
            while (live[i].size() > from) {
                auto h = pop(i, from + (live[i].size() * 31 + 7) % (live[i].size() - from));
                regs[i].destroy(h);
                died(i, h);
            }
        }
        }
        // leave something behind now and then, so that other ids are used next
        for (auto k = s.draw(4); k > 0; k--) {
            create(i);
        }
        verify();
    }
    for (int i = 0; i < 2; i++) {
        while (!live[i].empty()) {
            auto h = pop(i, 0);
            regs[i].destroy(h);
            died(i, h);
        }
    }
    verify();
    c.label("handles given out", ever[0].size() + ever[1].size());
    if (most > 256) {
        c.nontrivial();
    }
    if (most > 65000) {
        c.label("case: an id recycled more than 65000 times");
    }
}
pbt::registrar r2({ "C02", "recycle", case_recycle, 1500, 60000,
    "histories of up to 12 runs, each recycling ids up to 66000 times in one of six ways (create/destroy, oldest first, moves "
    "between registries, reserve/clone/destroy, commands, many at once); no handle is given out twice, dead ones stay dead; "
    "non-trivial: a run of more than 256 recyclings" });
pbt::registrar r1({ "C02", "handles", case_handles, 80000, 2000000,
    "random histories of create, destroy (single and bulk), clone/copy/move and component changes over 1-2 registries, "
    "mixed with operations through handles that are not alive (destroyed, reused id, other generation, never issued, "
    "invalid); every handle ever issued is checked for uniqueness and liveness against the model, size/empty against "
    "the number of living entities; non-trivial: an id was reused and at least one operation went through a dead handle" });
} // namespace
} // namespace rt
