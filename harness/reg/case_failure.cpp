// C06: failing operations raise the documented error and change nothing.
#include "probes.hpp"
namespace rt {
namespace {
struct failing : machine {
    using machine::machine;
    std::vector<std::unordered_set<u64>> live;
    u64 failures{}, kinds{};

    void on_created(mreg& g, const ment& e) override {
        live.resize(regs.size());
        live[reg_index(g)].insert(key(e.h));
    }
    void on_removed(mreg& g, entity h) override {
        live.resize(regs.size());
        live[reg_index(g)].erase(key(h));
    }
    void after_failure(int kind) {
        T.arm_copy = T.arm_ctor = -1;
        failures++;
        kinds |= 1ull << kind;
        check_counts_of_objects();
        std::size_t n = 0;
        for (auto& g : regs) {
            n += g.ents.size();
        }
        for (auto& g : regs) {
            PBT_CHECK(g.r->size() == g.ents.size(), "size() is " << g.r->size() << " with " << g.ents.size()
                                                                 << " living entities after a failed operation");
            if (n < 200 || failures % 8 == 0) {
                check_entity_view(g);
            }
            verify_some(g, nullptr);
        }
    }
    // asks for components the entity lacks
    void op_missing(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        int t = s.chance(1, 2) ? any_type() : static_cast<int>(s.draw(NT));
        if (e->has(t)) {
            return;
        }
        registry& r = *g.r;
        const registry& cr = r;
        int k = static_cast<int>(s.draw(5));
        PBT_NOTE(c, "r" << reg_index(g) << " ask " << show(e->h) << " for missing type " << t << " (form " << k << ")");
        bool thrown = false;
        try {
            switch (k) {
            case 0:
                (void)ops[t]->get(r, e->h);
                break;
            case 1:
                (void)ops[t]->get_cref(r, e->h);
                break;
            case 2:
                (void)ops[t]->get_const(cr, e->h);
                break;
            case 3:
                if (t == T8) {
                    (void)ops[t]->get(r, e->h);
                } else {
                    (void)ops[t]->get2(r, e->h);
                }
                break;
            default:
                if (t == T8) {
                    (void)ops[t]->get_const(r, e->h);
                } else {
                    (void)ops[t]->get2_const(cr, e->h);
                }
            }
        } catch (const co_ecs::component_not_found& ex) {
            thrown = true;
            PBT_CHECK(ex.what() != nullptr && *ex.what() != 0, "component_not_found without a message");
        }
        PBT_CHECK(thrown, "asking entity " << show(e->h) << " for missing component type " << t
                                           << " did not raise component_not_found");
        after_failure(0);
    }
    void op_dead(mreg& g) {
        live.resize(regs.size());
        entity h = dead_handle(*this, g, live[reg_index(g)]);
        int p = static_cast<int>(s.draw(DEAD_PROBES - 1));
        bool threw = probe_dead(*this, g, regs[(reg_index(g) + 1) % regs.size()], h, p, any_type());
        PBT_CHECK(threw, probe_name(p) << " through a dead handle did not raise entity_not_found");
        after_failure(1);
    }
    // clone/copy of an entity with a non-copyable component
    void op_noncopyable(mreg& g, mreg& d) {
        ment* e = nullptr;
        for (int i = 0; i < 6 && (!e || copyable(e->mask)); i++) {
            e = any_entity(g);
        }
        if (!e || copyable(e->mask)) {
            return;
        }
        int k = static_cast<int>(s.draw(3));
        PBT_NOTE(c, "r" << reg_index(g) << (k == 0 ? " clone " : " copy ") << show(e->h) << show_mask(e->mask)
                        << " (not copyable)");
        bool thrown = false;
        const registry& cr = *g.r;
        try {
            if (k == 0) {
                (void)g.r->get_entity(e->h).clone();
            } else if (k == 1) {
                (void)g.r->get_entity(e->h).copy(*d.r);
            } else {
                (void)cr.get_entity(e->h).copy(*d.r);
            }
        } catch (const std::invalid_argument&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "copying an entity with a non-copyable component did not raise invalid_argument");
        after_failure(2);
    }
    // clone/copy with a copy constructor that throws
    void op_throwing_copy(mreg& g, mreg& d) {
        ment* e = nullptr;
        for (int i = 0; i < 6; i++) {
            e = any_entity(g);
            if (e && copyable(e->mask) && (e->has(20) || e->has(21))) {
                break;
            }
        }
        if (!e || !copyable(e->mask) || !(e->has(20) || e->has(21))) {
            return;
        }
        int k = static_cast<int>(s.draw(3));
        int n = e->has(20) + e->has(21);
        int at = static_cast<int>(s.draw(static_cast<u64>(n)));
        PBT_NOTE(c, "r" << reg_index(g) << (k == 0 ? " clone " : " copy ") << show(e->h) << show_mask(e->mask)
                        << ", copy constructor " << at << " throws");
        bool thrown = false;
        const registry& cr = *g.r;
        T.arm_copy = at;
        try {
            if (k == 0) {
                (void)g.r->get_entity(e->h).clone();
            } else if (k == 1) {
                (void)g.r->get_entity(e->h).copy(*d.r);
            } else {
                (void)cr.get_entity(e->h).copy(*d.r);
            }
        } catch (const armed_exception&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "an exception of a copy constructor did not reach the caller");
        after_failure(3);
    }
    // fills the chunk of e's archetype with clones so that the next copy needs a new chunk, which then fails
    void op_throwing_set(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        int t = s.chance(1, 2) ? 20 : 21;
        if (!fits(e->mask | (1u << t))) {
            return;
        }
        int k = static_cast<int>(s.draw(3));
        if (k == 2 && e->has(t)) {
            k = 0;
        }
        PBT_NOTE(c, "r" << reg_index(g) << (k == 0 ? " set(args)" : k == 1 ? " set(const T&)" : " get_or_insert")
                        << " type " << t << " of " << show(e->h) << ", constructor throws");
        bool thrown = false;
        try {
            if (k == 1) {
                T.arm_copy = 0;
                ops[t]->set_copy(*g.r, e->h, 77);
            } else {
                T.arm_ctor = 0;
                if (k == 0) {
                    ops[t]->set_args(*g.r, e->h, 77);
                } else {
                    ops[t]->goi(*g.r, e->h, 77);
                }
            }
        } catch (const armed_exception&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "an exception of a component constructor did not reach the caller");
        after_failure(4);
    }
    void op_too_big(mreg& g) {
        int form = static_cast<int>(s.draw(4));
        bool thrown = false, ran = false;
        try {
            if (form == 0) {
                std::vector<int> big;
                for (int i = 0; i < static_cast<int>(combos.size()); i++) {
                    if (cannot_fit(combo_mask(i))) {
                        big.push_back(i);
                    }
                }
                int ci = big[s.draw(big.size())];
                u64 vals[16]{};
                PBT_NOTE(c, "r" << reg_index(g) << " create" << show_mask(combo_mask(ci)) << ", too big for a chunk");
                ran = true;
                combos[ci].create(*g.r, vals);
            } else if (form == 1) {
                PBT_NOTE(c, "r" << reg_index(g) << " create{24}, too big for a chunk");
                ran = true;
                ops[24]->create1(*g.r, 1);
            } else {
                ment* e = any_entity(g);
                if (!e) {
                    return;
                }
                int t = 24;
                for (int cand : { 22, 23, 13 }) {
                    if (cannot_fit(e->mask | (1u << cand)) && !e->has(cand)) {
                        t = cand;
                    }
                }
                PBT_NOTE(c, "r" << reg_index(g) << (form == 2 ? " set" : " get_or_insert") << " type " << t << " of "
                                << show(e->h) << show_mask(e->mask) << ", too big for a chunk");
                ran = true;
                if (form == 2) {
                    ops[t]->set_move(*g.r, e->h, 3);
                } else {
                    ops[t]->goi(*g.r, e->h, 3);
                }
            }
        } catch (const co_ecs::insufficient_chunk_size& ex) {
            thrown = true;
            PBT_CHECK(ex.what() != nullptr && *ex.what() != 0, "insufficient_chunk_size without a message");
        }
        if (!ran) {
            return;
        }
        PBT_CHECK(thrown, "a component set too large for a chunk did not raise insufficient_chunk_size");
        after_failure(5);
    }
    void op_throwing_visitor(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        int k = static_cast<int>(s.draw(6));
        registry& r = *g.r;
        const registry& cr = r;
        std::size_t parts = static_cast<std::size_t>(std::popcount(e->mask));
        std::size_t at = 0;
        if (k < 3) {
            if (parts == 0) {
                return;
            }
            at = s.draw(parts);
        } else {
            at = s.draw(std::min<std::size_t>(g.ents.size(), 40));
        }
        PBT_NOTE(c, "r" << reg_index(g) << " visitor form " << k << " throws at call " << at);
        std::size_t n = 0;
        bool thrown = false;
        auto boom = [&] {
            if (n++ == at) {
                throw armed_exception("visitor");
            }
        };
        try {
            switch (k) {
            case 0:
                r.get_entity(e->h).visit([&](const co_ecs::component_meta&, void*) { boom(); });
                break;
            case 1:
                cr.get_entity(e->h).visit([&](const co_ecs::component_meta&, const void*) { boom(); });
                break;
            case 2: {
                const auto ref = r.get_entity(e->h);
                ref.visit([&](const co_ecs::component_meta&, const void*) { boom(); });
                break;
            }
            case 3:
                cr.each([&](const entity&) { boom(); });
                break;
            case 4:
                co_ecs::view<const entity&>(cr).each([&](const entity&) { boom(); });
                break;
            default:
                for (auto [x] : co_ecs::view<const entity&>(cr).each()) {
                    (void)x;
                    boom();
                }
            }
        } catch (const armed_exception&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "an exception of a visitor did not reach the caller");
        PBT_CHECK(n == at + 1, "the visitor was called again after it threw");
        after_failure(6);
    }
    void op_command_too_big(mreg& g) {
        int form = static_cast<int>(s.draw(2));
        bool thrown = false;
        PBT_NOTE(c, "r" << reg_index(g) << " record a command with a component set too big for a chunk");
        try {
            if (form == 0) {
                ops[24]->cmd_create1(*g.r, 1);
            } else {
                ment* e = any_entity(g);
                if (!e) {
                    return;
                }
                co_ecs::command_writer w(*g.r);
                auto ref = w.get_entity(e->h);
                ops[24]->cmd_set(ref, 1, false);
            }
        } catch (const co_ecs::insufficient_chunk_size&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "recording a component set too large for a chunk did not raise insufficient_chunk_size");
        co_ecs::command_buffer::flush(*g.r);
        // no handle was given to anybody, so nothing new is alive
        for (std::uint32_t id = 0; id < std::min<std::uint32_t>(g.issued.size() + 3, 400); id++) {
            entity h(id, 0);
            live.resize(regs.size());
            PBT_CHECK(!g.r->alive(h) || live[reg_index(g)].count(key(h)),
                "a failed creation command left handle " << show(h) << " alive");
        }
        after_failure(7);
    }
};

void case_failure(pbt::ctx& c) {
    auto& s = c.src;
    {
        failing m(c, s.chance(1, 3) ? 2 : 1);
        m.choose_types(true);
        // make the interesting component types frequent
        for (int t : { 20, 21, 16, 15, 12 }) {
            if (s.chance(1, 2) && std::find(m.act.begin(), m.act.end(), t) == m.act.end()) {
                m.act.push_back(t);
            }
        }
        m.max_entities = 900;
        static const std::vector<std::vector<unsigned>> profiles{
            // create bulk set remove destroy bulkdestroy transfer | missing dead noncopy thrcopy thrset toobig visitor cmd
            { 8, 2, 6, 2, 3, 1, 1, 2, 2, 2, 4, 4, 2, 2, 1 },
            { 6, 3, 6, 2, 4, 1, 1, 0, 0, 1, 8, 2, 1, 0, 0 },
            { 6, 0, 8, 2, 3, 0, 3, 1, 1, 1, 6, 4, 4, 1, 0 },
        };
        auto w = profiles[s.draw(profiles.size())];
        s.set_len(5 + s.small(60));
        while (s.more()) {
            c.steps++;
            auto& g = m.reg();
            switch (s.weighted(w)) {
            case 0:
                m.op_create(g);
                break;
            case 1:
                m.op_bulk_create(g);
                break;
            case 2:
                m.op_set(g);
                break;
            case 3:
                m.op_remove(g);
                break;
            case 4:
                m.op_destroy(g);
                break;
            case 5:
                m.op_bulk_destroy(g);
                break;
            case 6:
                m.op_transfer(g, m.reg(), static_cast<int>(s.draw(3)));
                break;
            case 7:
                m.op_missing(g);
                break;
            case 8:
                m.op_dead(g);
                break;
            case 9:
                m.op_noncopyable(g, m.reg());
                break;
            case 10:
                m.op_throwing_copy(g, m.reg());
                break;
            case 11:
                m.op_throwing_set(g);
                break;
            case 12:
                m.op_too_big(g);
                break;
            case 13:
                m.op_throwing_visitor(g);
                break;
            default:
                m.op_command_too_big(g);
            }
        }
        for (auto& g : m.regs) {
            m.verify_all(g);
            m.check_entity_view(g);
        }
        m.check_counts_of_objects();
        for (auto& g : m.regs) {
            g.ents.clear();
            g.r.reset();
        }
        m.check_counts_of_objects();
        m.finish_labels();
        c.label("failed operations", m.failures);
        static const char* names[] = { "missing component", "dead handle", "non-copyable", "throwing copy", "throwing set",
            "too big", "throwing visitor", "too big command" };
        for (int k = 0; k < 8; k++) {
            if ((m.kinds >> k) & 1u) {
                c.label(names[k]);
            }
        }
        if (m.failures >= 2 && std::popcount(m.kinds) >= 2) {
            c.nontrivial();
        }
    }
}
pbt::registrar r1({ "C06", "failure", case_failure, 100000, 2500000,
    "random histories with failing operations mixed in (missing component, dead handle, non-copyable clone/copy, copy "
    "constructor throwing at the k-th component, constructor throwing in set/get_or_insert, component set too big for a "
    "chunk in create/set/get_or_insert/command recording, throwing visitor); after every failure the error type, all "
    "values, entity count, an all-entities view and the number of living component objects are checked against the "
    "unchanged model and the history continues; non-trivial: at least two failures of at least two kinds" });
} // namespace
} // namespace rt
