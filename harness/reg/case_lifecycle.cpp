// C03: every component object is constructed once, destroyed once, never leaked; no memory is lost.
#include "machine.hpp"

#include <sanitizer/allocator_interface.h>
namespace rt {
namespace {

std::int64_t net_allocs = 0;
bool counting = false;
void on_malloc(const volatile void*, std::size_t) {
    if (counting) {
        net_allocs++;
    }
}
void on_free(const volatile void* p) {
    if (counting && p) {
        net_allocs--;
    }
}

struct life : machine {
    using machine::machine;
    u64 kinds{};

    void after(int kind) {
        kinds |= 1ull << kind;
        check_counts_of_objects();
    }
    /// records a few commands and flushes them
    void op_commands(mreg& g) {
        std::array<std::int64_t, NT> staged{};
        auto n = 1 + s.draw(6);
        std::vector<std::size_t> doomed;
        std::uint64_t started = g.ents.size();
        struct pending {
            entity h;
            int what; // 0 put, 1 drop, 2 destroy
            int t;
            u64 v;
        };
        std::vector<pending> todo;
        auto find = [&](entity h) -> ment& {
            for (auto& e : g.ents) {
                if (e.h == h) {
                    return e;
                }
            }
            PBT_FAIL("internal: entity not in the model");
        };
        co_ecs::command_writer w(*g.r);
        std::vector<ment> added;
        std::unordered_set<u64> gone;
        for (u64 i = 0; i < n; i++) {
            auto k = s.weighted({ 3, 6, 2, 1, 2 });
            ment* e = any_entity(g);
            if (k != 0 && (!e || gone.count(key(e->h)))) {
                continue;
            }
            if (k == 0) {
                int ci = act_combos[s.draw(act_combos.size())];
                u64 vals[16];
                u64 base = value();
                ment a;
                for (std::size_t j = 0; j < combos[ci].types.size(); j++) {
                    vals[j] = base + j;
                    a.put(combos[ci].types[j], ops[combos[ci].types[j]]->canon(vals[j]));
                    staged[combos[ci].types[j]]++;
                }
                a.h = combos[ci].cmd_create(*g.r, vals);
                added.push_back(a);
                PBT_NOTE(c, "r" << reg_index(g) << " command create" << show_mask(a.mask) << " -> " << show(a.h));
            } else if (k == 1) {
                int t = any_type();
                std::uint32_t m = e->mask | (1u << t);
                for (auto& p : todo) {
                    if (p.h == e->h && p.what == 0) {
                        m |= 1u << p.t;
                    }
                }
                if (!fits(m)) {
                    continue;
                }
                u64 v = value();
                auto ref = w.get_entity(e->h);
                ops[t]->cmd_set(ref, v, s.chance(1, 2));
                staged[t]++;
                todo.push_back({ e->h, 0, t, ops[t]->canon(v) });
                PBT_NOTE(c, "r" << reg_index(g) << " command set type " << t << " of " << show(e->h) << " = " << v);
            } else if (k == 2) {
                int t = any_type();
                auto ref = w.get_entity(e->h);
                ops[t]->cmd_remove(ref);
                todo.push_back({ e->h, 1, t, 0 });
                PBT_NOTE(c, "r" << reg_index(g) << " command remove type " << t << " of " << show(e->h));
            } else if (k == 3) {
                w.destroy(e->h);
                gone.insert(key(e->h));
                todo.push_back({ e->h, 2, 0, 0 });
                PBT_NOTE(c, "r" << reg_index(g) << " command destroy " << show(e->h));
            } else {
                std::uint32_t m = e->mask;
                for (auto& p : todo) {
                    if (p.h == e->h && p.what == 0) {
                        m |= 1u << p.t;
                    }
                }
                if (!copyable(m)) {
                    continue;
                }
                // the clone copies what the entity holds when the command is executed
                ment a = *e;
                for (auto& p : todo) {
                    if (p.h == e->h && p.what == 0) {
                        a.put(p.t, p.v);
                    } else if (p.h == e->h) {
                        a.drop(p.t);
                    }
                }
                a.h = w.get_entity(e->h).clone();
                added.push_back(a);
                PBT_NOTE(c, "r" << reg_index(g) << " command clone " << show(e->h) << " -> " << show(a.h));
            }
            check_counts_of_objects(&staged);
        }
        PBT_NOTE(c, "flush");
        co_ecs::command_buffer::flush(*g.r);
        for (auto& p : todo) {
            if (p.what == 0) {
                find(p.h).put(p.t, p.v);
            } else if (p.what == 1) {
                find(p.h).drop(p.t);
            } else {
                for (std::size_t i = 0; i < g.ents.size(); i++) {
                    if (g.ents[i].h == p.h) {
                        forget(g, i);
                        break;
                    }
                }
            }
        }
        for (auto& a : added) {
            auto& e = add(g, a.h);
            e.mask = a.mask;
            e.val = a.val;
        }
        (void)started;
        after(6);
        verify_some(g, nullptr);
    }
};

void body(pbt::ctx& c, pbt::source& s, bool first) {
    {
        life m(c, s.chance(1, 2) ? 2 : 1);
        m.choose_types(true);
        for (int t : { 15, 16, 17, 18, 20, 26 }) {
            if (s.chance(1, 2) && std::find(m.act.begin(), m.act.end(), t) == m.act.end()) {
                m.act.push_back(t);
            }
        }
        m.max_entities = 700;
        static const std::vector<std::vector<unsigned>> profiles{
            // create bulk set goi remove destroy bulkdestroy transfer commands newregistry write
            { 8, 2, 8, 2, 3, 3, 1, 4, 3, 1, 1 },
            { 4, 3, 10, 3, 6, 5, 2, 1, 0, 0, 2 },
            { 4, 0, 3, 1, 1, 1, 1, 8, 3, 1, 1 },
            { 4, 1, 3, 1, 1, 1, 1, 1, 10, 1, 1 },
        };
        auto w = profiles[s.draw(profiles.size())];
        s.set_len(4 + s.small(60));
        while (s.more()) {
            c.steps++;
            auto& g = m.reg();
            auto k = s.weighted(w);
            switch (k) {
            case 0:
                m.op_create(g);
                break;
            case 1:
                m.op_bulk_create(g);
                break;
            case 2:
                m.op_set(g);
                break;
            case 3:
                m.op_goi(g);
                break;
            case 4:
                m.op_remove(g);
                break;
            case 5:
                m.op_destroy(g);
                break;
            case 6:
                m.op_bulk_destroy(g);
                break;
            case 7:
                m.op_transfer(g, m.reg(), static_cast<int>(s.draw(3)));
                break;
            case 8:
                m.op_commands(g);
                break;
            case 9:
                PBT_NOTE(c, "r" << m.reg_index(g) << " destroyed with " << g.ents.size() << " entities, new registry");
                g = mreg{};
                break;
            default:
                m.op_write(g);
            }
            m.after(static_cast<int>(k < 6 ? k : 7));
        }
        for (auto& g : m.regs) {
            m.verify_all(g);
        }
        PBT_NOTE(c, "all registries destroyed");
        for (auto& g : m.regs) {
            g.ents.clear();
            g.r.reset();
        }
        m.check_counts_of_objects();
        if (first) {
            m.finish_labels();
            if (c.steps >= 5 && std::popcount(m.kinds) >= 4 && T.constructed > 10) {
                c.nontrivial();
            }
        }
    }
    PBT_CHECK(T.live.empty(), T.live.size() << " component objects are alive after all registries were destroyed");
}

void case_lifecycle(pbt::ctx& c) {
    static bool hooked = [] {
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
        return true;
    }();
    (void)hooked;
    std::vector<u64> rec;
    c.src.keep(&rec);
    body(c, c.src, true);
    c.src.keep(nullptr);
    T.reset();
    // The same history again, now that everything that is allocated once per process exists: no memory may remain.
    // (values drawn by the first run are replayed)
    if (c.steps % 2 == 0 || c.tracing) {
        pbt::source again(rec.data(), rec.size());
        again.silence();
        std::string keep_trace;
        {
            pbt::ctx c2(again, false);
            T.live.clear();
            net_allocs = 0;
            counting = true;
            body(c2, again, false);
        }
        T.live.clear();
        T.violation.clear();
        T.violation.shrink_to_fit();
        counting = false;
        PBT_CHECK(net_allocs == 0, net_allocs << " memory blocks allocated during the second run of this history were not "
                                                 "freed after all registries were destroyed");
        c.label("histories repeated for the memory balance");
    }
}
pbt::registrar r1({ "C03", "lifecycle", case_lifecycle, 60000, 1500000,
    "random histories of every kind of operation (create, set, get_or_insert, remove, destroy, clone/copy/move, command "
    "bursts with flush, registry destruction) over component types that track construction, assignment, moves and "
    "destruction by address; after every operation the number of living objects per type must equal the number of "
    "entities holding one (plus staged ones while commands are pending), at the end none is alive, and repeating the "
    "history leaves no allocated memory behind; non-trivial: at least 5 operations of at least 4 kinds and more than 10 "
    "tracked objects constructed" });
} // namespace
} // namespace rt
