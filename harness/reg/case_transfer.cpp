// C05: clone, copy and move carry an entity over completely and touch nothing else.
#include "machine.hpp"
namespace rt {
namespace {
struct xfer : machine {
    using machine::machine;
    u64 transfers{}, reserved{}, big{};
    std::uint32_t kinds{};

    // one snapshot of everything, compared after each transfer: names, component sets, values, and views
    void check_everything(const char* when) {
        for (auto& g : regs) {
            PBT_CHECK(g.r->size() == g.ents.size(), when << ": r" << reg_index(g) << " has size " << g.r->size() << ", "
                                                         << g.ents.size() << " entities expected");
            if (g.ents.size() <= 150) {
                verify_all(g);
                check_entity_view(g);
                check_typed_views(g);
            } else {
                verify_some(g, &g.ents.back());
                if (c.steps % 8 == 0) {
                    check_entity_view(g);
                }
            }
            for (auto h : g.dead) {
                if (g.dead.size() < 60) {
                    PBT_CHECK(!g.r->alive(h), when << ": handle " << show(h) << " of r" << reg_index(g) << " is alive again");
                }
            }
        }
    }
    template<int I>
    void typed_view(mreg& g) {
        using C = type_t<I>;
        std::vector<std::pair<u64, u64>> seen, want;
        co_ecs::view<const entity&, const C&>(std::as_const(*g.r)).each([&](const entity& e, const C& v) {
            seen.emplace_back(key(e), v.val());
        });
        for (auto& e : g.ents) {
            if (e.has(I)) {
                want.emplace_back(key(e.h), e.val[I]);
            }
        }
        std::sort(seen.begin(), seen.end());
        std::sort(want.begin(), want.end());
        PBT_CHECK(seen == want, "r" << reg_index(g) << ": a view over component type " << I << " reports " << seen.size()
                                    << " entries that differ from the " << want.size() << " expected ones");
    }
    void check_typed_views(mreg& g) {
        typed_view<0>(g);
        typed_view<12>(g);
        typed_view<15>(g);
        typed_view<18>(g);
    }
    void on_created(mreg& g, const ment& e) override {
        (void)e;
        PBT_CHECK(g.r->alive(e.h), "new entity " << show(e.h) << " is not alive");
    }
    void after_transfer(mreg& src, mreg& dst, const ment& from, entity h, int kind) override {
        transfers++;
        kinds |= 1u << kind;
        (void)dst;
        (void)h;
        if (kind == 2) {
            PBT_CHECK(!src.r->alive(from.h), "entity " << show(from.h) << " is alive in the registry it was moved out of");
        } else {
            PBT_CHECK(src.r->alive(from.h), "entity " << show(from.h) << " died when it was copied");
        }
        check_everything(kind == 0 ? "after clone" : kind == 1 ? "after copy" : "after move");
        // independent objects: writing to one must not show in the other
        if (kind != 2 && from.mask != 0 && s.chance(1, 2)) {
            int t = 0;
            while (!from.has(t)) {
                t++;
            }
            auto& n = dst.ents.back();
            u64 v = value();
            PBT_NOTE(c, "write type " << t << " of the new entity = " << v);
            ops[t]->write(*dst.r, n.h, v);
            n.put(t, ops[t]->canon(v));
            check_everything("after writing to the new entity");
        }
    }
    /// several reservations filled in any order, with the sync anywhere between
    void op_batch(mreg& d) {
        auto n = 2 + s.draw(4);
        std::vector<co_ecs::placeholder_entity> ph;
        for (u64 i = 0; i < n; i++) {
            ph.push_back(d.r->reserve());
        }
        auto sync_at = s.draw(n + 1);
        PBT_NOTE(c, "r" << reg_index(d) << " reserve x" << n << ", sync after " << sync_at << " transfers");
        std::vector<std::pair<entity, ment>> got;
        for (u64 i = 0; i < n; i++) {
            if (i == sync_at) {
                d.r->sync();
            }
            auto pi = s.draw(ph.size());
            auto p = ph[pi];
            auto& src = reg();
            int kind = &src == &d ? 0 : 1 + static_cast<int>(s.draw(2));
            ment* e = any_entity(src);
            if (!e || (kind != 2 && !copyable(e->mask))) {
                continue;
            }
            ph.erase(ph.begin() + static_cast<std::ptrdiff_t>(pi));
            ment from = *e;
            PBT_NOTE(c, (kind == 0 ? "clone " : kind == 1 ? "copy " : "move ")
                            << "r" << reg_index(src) << show(from.h) << show_mask(from.mask) << " into reserved r"
                            << reg_index(d) << show(p.get_entity()));
            entity h;
            if (kind == 0) {
                h = d.r->get_entity(from.h).clone(p);
            } else if (kind == 1) {
                h = src.r->get_entity(from.h).copy(*d.r, p);
            } else {
                h = src.r->get_entity(from.h).move(*d.r, p);
                for (std::size_t j = 0; j < src.ents.size(); j++) {
                    if (src.ents[j].h == from.h) {
                        forget(src, j);
                        break;
                    }
                }
            }
            PBT_CHECK(h == p.get_entity(), "transfer into reserved " << show(p.get_entity()) << " returned " << show(h));
            from.h = h;
            got.emplace_back(h, from);
            transfers++;
            reserved++;
            kinds |= 1u << kind;
        }
        if (!ph.empty()) {
            // leave no reservation unfilled: fill the rest with fresh entities of a scratch registry
            registry scratch;
            for (auto p : ph) {
                u64 v = value();
                entity h0 = ops[1]->create1(scratch, v);
                entity h = scratch.get_entity(h0).move(*d.r, p);
                PBT_CHECK(h == p.get_entity(), "move into a reserved entity returned a different entity");
                PBT_CHECK(!scratch.alive(h0) && scratch.empty(), "a moved entity stays in its registry");
                ment a;
                a.h = h;
                a.put(1, ops[1]->canon(v));
                got.emplace_back(h, a);
            }
        }
        d.r->sync();
        for (auto& [h, m] : got) {
            auto& e = add(d, h);
            copy_model(m, e);
            on_created(d, e);
        }
        check_everything("after filling reserved entities");
    }
    /// clone until the archetype of the entity crosses a chunk boundary
    void op_many(mreg& g, mreg& d) {
        ment* e = any_entity(g);
        if (!e || !copyable(e->mask)) {
            return;
        }
        ment from = *e;
        auto cap = approx_capacity(from.mask);
        if (cap > 300) {
            return;
        }
        auto n = std::min<u64>(cap + s.draw(4), max_entities > d.ents.size() ? max_entities - d.ents.size() : 0);
        bool clone = s.chance(1, 2) || &g == &d;
        PBT_NOTE(c, (clone ? "clone" : "copy") << " " << show(from.h) << show_mask(from.mask) << " x" << n);
        auto& dst = clone ? g : d;
        for (u64 i = 0; i < n; i++) {
            entity h = clone ? entity(g.r->get_entity(from.h).clone()) : entity(g.r->get_entity(from.h).copy(*d.r));
            auto& x = add(dst, h);
            copy_model(from, x);
        }
        big++;
        transfers += n;
        check_everything("after many copies");
    }
};

void case_transfer(pbt::ctx& c) {
    auto& s = c.src;
    xfer m(c, 2 + s.draw(2));
    m.choose_types(false);
    m.max_entities = 400;
    static const std::vector<std::vector<unsigned>> profiles{
        // create bulk set remove destroy transfer batch many write
        { 6, 1, 4, 1, 2, 8, 2, 1, 1 },
        { 4, 0, 3, 1, 1, 12, 1, 0, 1 },
        { 4, 1, 2, 0, 3, 4, 5, 1, 0 },
        { 3, 2, 2, 1, 4, 6, 1, 3, 1 },
    };
    auto w = profiles[s.draw(profiles.size())];
    s.set_len(4 + s.small(45));
    while (s.more()) {
        c.steps++;
        auto& g = m.reg();
        switch (s.weighted(w)) {
        case 0:
            m.op_create(g);
            break;
        case 1:
            m.op_bulk_create(g);
            break;
        case 2:
            m.op_set(g);
            break;
        case 3:
            m.op_remove(g);
            break;
        case 4:
            m.op_destroy(g);
            break;
        case 5:
            m.op_transfer(g, m.reg(), static_cast<int>(s.draw(3)));
            break;
        case 6:
            m.op_batch(g);
            break;
        case 7:
            m.op_many(g, m.reg());
            break;
        default:
            m.op_write(g);
        }
    }
    c.steps = 8;
    m.check_everything("at the end");
    m.finish_labels();
    c.label("transfers", m.transfers);
    c.label("transfers into reserved entities", m.reserved);
    c.label("transfers across chunk boundaries", m.big);
    if (m.transfers >= 2 && std::popcount(m.kinds) >= 2) {
        c.nontrivial();
    }
}
pbt::registrar r1({ "C05", "transfer", case_transfer, 100000, 2000000,
    "random histories over 2-3 registries in which entities are cloned, copied (also through const references) and moved, "
    "with and without reserved destinations (several reservations filled in any order, sync before, between or after), "
    "mixed with creations, component changes and destructions; after every transfer all values, component sets, counts "
    "and views of all registries are compared with the model, and the new entity is written to check independence; "
    "non-trivial: at least two transfers of at least two kinds" });
} // namespace
} // namespace rt
