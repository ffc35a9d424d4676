// C01: registry contents equal the model after any history.
#include "machine.hpp"
namespace rt {
static void case_state(pbt::ctx& c) {
    machine m(c, c.src.chance(1, 6) ? 2 : 1);
    auto& s = c.src;
    m.choose_types();
    // phase weights: growth-heavy, churn-heavy, shrink-heavy
    static const std::vector<std::vector<unsigned>> profiles{
        // create bulk set goi write remove destroy bulkdestroy
        { 6, 1, 8, 2, 2, 4, 4, 0 },
        { 3, 3, 6, 1, 2, 6, 5, 2 },
        { 2, 1, 12, 3, 2, 10, 1, 0 },
        { 4, 2, 2, 1, 1, 2, 10, 2 },
    };
    auto w = profiles[s.draw(profiles.size())];
    std::size_t len = 4 + s.small(s.chance(1, 8) ? 160 : 60);
    bool any_move = false;
    s.set_len(len);
    while (s.more()) {
        c.steps++;
        auto& g = m.reg();
        switch (s.weighted(w)) {
        case 0:
            m.op_create(g);
            m.verify_some(g, g.ents.empty() ? nullptr : &g.ents.back());
            break;
        case 1:
            m.op_bulk_create(g);
            m.verify_some(g, nullptr);
            break;
        case 2:
            m.op_set(g);
            any_move = true;
            break;
        case 3:
            m.op_goi(g);
            break;
        case 4:
            m.op_write(g);
            break;
        case 5:
            m.op_remove(g);
            any_move = true;
            break;
        case 6:
            m.op_destroy(g);
            break;
        default:
            m.op_bulk_destroy(g);
        }
    }
    for (auto& g : m.regs) {
        for (int k = 0; k < 4; k++) {
            m.vctr = k;
            for (auto& e : g.ents) {
                m.verify_entity(g, e, k);
            }
        }
    }
    m.finish_labels();
    if (any_move && c.steps >= 6 && (m.saw_recycle || m.saw_multichunk || m.regs[0].issued.size() > 3)) {
        c.nontrivial();
    }
}
static pbt::registrar r1({ "C01", "state", case_state, 50000, 1500000,
    "random operation histories (create, bulk create around chunk capacity multiples, set in five argument forms, "
    "get_or_insert, write, remove, destroy, bulk destroy) over 1-9 component types and 1-2 registries, compared with a "
    "per-entity map model after every operation; non-trivial: at least 6 operations including a set or remove, and "
    "either a recycled id, a multi-chunk archetype or more than 3 entities" });
} // namespace rt
