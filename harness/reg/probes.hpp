// Operations through handles that are not alive.
#pragma once
#include "machine.hpp"
namespace rt {

constexpr int DEAD_PROBES = 19;

/// runs one operation on an entity that is not alive; returns true if it raised entity_not_found, false if it returned
/// normally; anything else propagates
inline bool probe_dead(machine& m, mreg& g, mreg& other, entity h, int probe, int t) {
    registry& r = *g.r;
    const registry& cr = r;
    int nop = 0;
    const char* names[DEAD_PROBES] = { "get", "const ref get", "const_entity_ref get", "set(T&&)", "set(args)",
        "get_or_insert", "remove", "has", "const has", "archetype", "const archetype", "visit", "const visit",
        "registry.destroy", "entity_ref.destroy", "clone", "copy", "const copy", "move" };
    PBT_NOTE(m.c, "r" << m.reg_index(g) << " " << names[probe] << " on a handle that is not alive " << show(h)
                      << " type " << t);
    try {
        switch (probe) {
        case 0:
            nop += ops[t]->get(r, h) != nullptr;
            break;
        case 1:
            nop += ops[t]->get_cref(r, h) != nullptr;
            break;
        case 2:
            nop += ops[t]->get_const(cr, h) != nullptr;
            break;
        case 3:
            ops[t]->set_move(r, h, 5);
            break;
        case 4:
            ops[t]->set_args(r, h, 5);
            break;
        case 5:
            ops[t]->goi(r, h, 5);
            break;
        case 6:
            ops[t]->remove(r, h);
            break;
        case 7:
            nop += ops[t]->has(r, h);
            break;
        case 8:
            nop += ops[t]->has_const(cr, h);
            break;
        case 9:
            nop += r.get_entity(h).archetype().components().size() > 3;
            break;
        case 10:
            nop += cr.get_entity(h).archetype().components().size() > 3;
            break;
        case 11:
            r.get_entity(h).visit([&](const co_ecs::component_meta&, void*) { nop++; });
            break;
        case 12:
            cr.get_entity(h).visit([&](const co_ecs::component_meta&, const void*) { nop++; });
            break;
        case 13:
            r.destroy(h);
            break;
        case 14:
            r.get_entity(h).destroy();
            break;
        case 15:
            (void)r.get_entity(h).clone();
            break;
        case 16:
            (void)r.get_entity(h).copy(*other.r);
            break;
        case 17:
            (void)cr.get_entity(h).copy(*other.r);
            break;
        default:
            (void)r.get_entity(h).move(*other.r);
        }
    } catch (const co_ecs::entity_not_found& e) {
        PBT_CHECK(e.what() != nullptr && *e.what() != 0, "entity_not_found without a message");
        return true;
    }
    (void)nop;
    return false;
}
inline const char* probe_name(int p) {
    static const char* names[DEAD_PROBES] = { "get", "get", "get", "set", "set", "get_or_insert", "remove", "has", "has",
        "archetype", "archetype", "visit", "visit", "destroy", "destroy", "clone", "copy", "copy", "move" };
    return names[p];
}

/// a handle of registry g that is not alive: destroyed, reused id, never issued, invalid
inline entity dead_handle(machine& m, mreg& g, const std::unordered_set<u64>& live) {
    auto& s = m.s;
    for (int i = 0; i < 8; i++) {
        entity h = entity::invalid();
        switch (s.weighted({ 6, 2, 2, 1, 1, 1 })) {
        case 0:
            if (!g.dead.empty()) {
                h = g.dead[s.draw(g.dead.size())];
            }
            break;
        case 1: // another generation of an issued id
            if (!g.ents.empty()) {
                auto e = g.ents[s.draw(g.ents.size())].h;
                h = entity(e.id(), e.generation() + 1 + static_cast<std::uint32_t>(s.draw(2)));
            }
            break;
        case 2: // often the handle a free id gets next, which names nothing yet
            if (!g.dead.empty()) {
                auto e = g.dead[s.draw(g.dead.size())];
                h = entity(e.id(), e.generation() + 1 + static_cast<std::uint32_t>(s.draw(3)));
            }
            break;
        case 3: // beyond any id, or the next new one
            h = entity(static_cast<std::uint32_t>(g.issued.size() + s.draw(5)), 0);
            break;
        case 4:
            h = entity(static_cast<std::uint32_t>(0xffffffffu - s.draw(3)), static_cast<std::uint32_t>(s.draw(2)));
            break;
        default:
            break;
        }
        if (!live.count(key(h))) {
            return h;
        }
    }
    return entity::invalid();
}

} // namespace rt
