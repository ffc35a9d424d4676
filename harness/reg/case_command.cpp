// C08: flushing recorded commands equals performing the recorded operations in order.
#include "machine.hpp"

#include <deque>
namespace rt {
namespace {

struct cmd {
    int what; // 0 create, 1 set, 2 remove, 3 destroy, 4 clone
    entity h; // target; for clone the new entity
    entity from;
    int t;
    u64 v;
    ment init;
};

struct model {
    std::vector<ment> ents;
    std::unordered_map<u64, std::size_t> at;

    ment* find(entity h) {
        auto it = at.find(key(h));
        return it == at.end() ? nullptr : &ents[it->second];
    }
    void add(const ment& e) {
        at[key(e.h)] = ents.size();
        ents.push_back(e);
    }
    void erase(entity h) {
        auto i = at[key(h)];
        at.erase(key(h));
        if (i + 1 != ents.size()) {
            ents[i] = ents.back();
            at[key(ents[i].h)] = i;
        }
        ents.pop_back();
    }
    void apply(const cmd& k) {
        switch (k.what) {
        case 0:
            add(k.init);
            break;
        case 1:
            find(k.h)->put(k.t, k.v);
            break;
        case 2:
            find(k.h)->drop(k.t);
            break;
        case 3:
            erase(k.h);
            break;
        default: {
            ment e = *find(k.from);
            e.h = k.h;
            add(e);
        }
        }
    }
};

struct commands : machine {
    using machine::machine;
    std::vector<cmd> pending;
    model shadow; // the state after executing the pending commands, when no direct change interferes
    std::size_t target = 0;
    std::vector<std::unordered_set<u64>> ever;
    u64 recorded{}, flushes{}, chained{}, on_new{}, direct{};
    std::vector<co_ecs::command_entity_ref> refs;
    std::vector<entity> ref_handles;

    void rebuild_shadow() {
        shadow = {};
        for (auto& e : regs[target].ents) {
            shadow.add(e);
        }
        for (auto& k : pending) {
            shadow.apply(k);
        }
    }
    void fresh(mreg& g, entity h) {
        ever.resize(regs.size());
        PBT_CHECK(ever[reg_index(g)].insert(key(h)).second, "handle " << show(h) << " was given out before");
    }
    void on_created(mreg& g, const ment& e) override {
        fresh(g, e.h);
    }
    void unchanged(const char* when) {
        auto& g = regs[target];
        PBT_CHECK(g.r->size() == g.ents.size(), when << ": size() is " << g.r->size() << ", " << g.ents.size() << " expected");
        if (g.ents.size() <= 100 || recorded % 8 == 0) {
            verify_some(g, nullptr);
            check_entity_view(g);
        }
    }
    ment* any_shadow() {
        if (shadow.ents.empty()) {
            return nullptr;
        }
        return s.chance(1, 3) ? &shadow.ents.back() : &shadow.ents[s.draw(shadow.ents.size())];
    }
    void push(cmd k) {
        shadow.apply(k);
        pending.push_back(std::move(k));
        recorded++;
    }
    void op_record(co_ecs::command_writer& w) {
        auto& g = regs[target];
        auto k = s.weighted({ 3, 7, 3, 2, 3 });
        ment* e = any_shadow();
        if (k != 0 && !e) {
            k = 0;
        }
        if (k == 0) {
            u64 vals[16];
            u64 base = value();
            cmd q{};
            q.what = 0;
            if (s.chance(1, 3)) {
                int t = any_type();
                q.init.h = ops[t]->cmd_create1(*g.r, base);
                q.init.put(t, ops[t]->canon(base));
            } else {
                int ci = act_combos[s.draw(act_combos.size())];
                for (std::size_t j = 0; j < combos[ci].types.size(); j++) {
                    vals[j] = base + j;
                    q.init.put(combos[ci].types[j], ops[combos[ci].types[j]]->canon(vals[j]));
                }
                q.init.h = combos[ci].cmd_create(*g.r, vals);
            }
            q.h = q.init.h;
            fresh(g, q.h);
            PBT_NOTE(c, "record create" << show_mask(q.init.mask) << " -> " << show(q.h));
            push(q);
            return;
        }
        entity h = e->h;
        bool is_new = false;
        for (auto& p : pending) {
            is_new = is_new || ((p.what == 0 || p.what == 4) && p.h == h);
        }
        on_new += is_new;
        auto ref = w.get_entity(h);
        PBT_CHECK(entity(ref) == h, "command_writer::get_entity changes the handle");
        if (k == 4 && !copyable(e->mask)) {
            k = 1;
        }
        if (k == 1 || k == 2) {
            auto n = 1 + s.draw(3);
            chained += n > 1;
            for (u64 i = 0; i < n; i++) {
                int t = any_type();
                if (k == 1) {
                    u64 v = value();
                    ops[t]->cmd_set(ref, v, s.chance(1, 2));
                    PBT_NOTE(c, "record set type " << t << " of " << show(h) << " = " << v);
                    push({ 1, h, {}, t, ops[t]->canon(v), {} });
                } else {
                    ops[t]->cmd_remove(ref);
                    PBT_NOTE(c, "record remove type " << t << " of " << show(h));
                    push({ 2, h, {}, t, 0, {} });
                }
            }
        } else if (k == 3) {
            PBT_NOTE(c, "record destroy " << show(h));
            if (s.chance(1, 2)) {
                w.destroy(h);
            } else {
                ref.destroy();
            }
            push({ 3, h, {}, 0, 0, {} });
        } else {
            auto cl = ref.clone();
            entity n = cl;
            fresh(g, n);
            PBT_NOTE(c, "record clone " << show(h) << " -> " << show(n));
            push({ 4, n, h, 0, 0, {} });
            if (s.chance(1, 2)) {
                int t = any_type();
                u64 v = value();
                ops[t]->cmd_set(cl, v, false);
                chained++;
                PBT_NOTE(c, "record set type " << t << " of the clone = " << v);
                push({ 1, n, {}, t, ops[t]->canon(v), {} });
            }
        }
    }
    bool untouched(entity h) {
        for (auto& k : pending) {
            if (k.h == h || k.from == h) {
                return false;
            }
        }
        return true;
    }
    /// direct operations between recording and flush
    void op_direct() {
        auto& g = regs[target];
        direct += !pending.empty();
        switch (s.weighted({ 3, 3, 2, 2, 1 })) {
        case 0:
            op_create(g);
            break;
        case 1:
            op_set(g);
            break;
        case 2:
            op_remove(g);
            // a pending clone must not start copying something else than checked
            break;
        case 3: {
            ment* e = any_entity(g);
            if (e && untouched(e->h)) {
                entity h = e->h;
                PBT_NOTE(c, "destroy " << show(h));
                g.r->destroy(h);
                forget(g, static_cast<std::size_t>(e - g.ents.data()));
            }
            break;
        }
        default:
            op_write(g);
        }
        rebuild_shadow();
    }
    void op_flush() {
        auto& g = regs[target];
        PBT_NOTE(c, "flush of " << pending.size() << " commands");
        flushes++;
        co_ecs::command_buffer::flush(*g.r);
        rebuild_shadow();
        std::vector<entity> died;
        for (auto& k : pending) {
            if (k.what == 3) {
                died.push_back(k.h);
            }
            if (k.what == 0 || k.what == 4) {
                g.issued.insert(key(k.h));
                saw_recycle = saw_recycle || k.h.generation() > 0;
            }
        }
        pending.clear();
        g.ents = shadow.ents;
        for (auto h : died) {
            g.dead.push_back(h);
        }
        for (auto h : g.dead) {
            PBT_CHECK(!g.r->alive(h), "entity " << show(h) << " is alive though its destruction was flushed");
        }
        after_flush("after flush");
        if (s.chance(1, 3)) {
            PBT_NOTE(c, "flush again");
            co_ecs::command_buffer::flush(*g.r);
            after_flush("after a second flush");
        }
    }
    void after_flush(const char* when) {
        auto& g = regs[target];
        PBT_CHECK(g.r->size() == g.ents.size(), when << ": size() is " << g.r->size() << ", " << g.ents.size() << " expected");
        for (auto& e : g.ents) {
            PBT_CHECK(g.r->alive(e.h), when << ": entity " << show(e.h) << " is not alive");
        }
        if (g.ents.size() <= 200) {
            verify_all(g);
        } else {
            verify_some(g, nullptr);
        }
        check_entity_view(g);
        check_tracker();
    }
};

void case_command(pbt::ctx& c) {
    auto& s = c.src;
    commands m(c, s.chance(1, 4) ? 2 : 1);
    m.choose_types(false);
    m.ever.resize(m.regs.size());
    // everything together fits a chunk, so that no flush can fail
    std::erase_if(m.act_combos, [&](int ci) {
        auto k = machine::combo_mask(ci);
        return ((k >> 13) & 1u) || ((k >> 22) & 1u) || ((k >> 23) & 1u) || ((k >> 24) & 1u);
    });
    if (m.act_combos.empty()) {
        m.act_combos.push_back(0);
    }
    std::erase_if(m.act, [](int t) { return t == 13 || t == 22 || t == 23; });
    if (m.act.empty()) {
        m.act.push_back(0);
    }
    // clones must stay possible while direct operations change entities
    if (s.chance(1, 2)) {
        std::erase_if(m.act, [](int t) { return !ops[t]->copyable; });
        if (m.act.empty()) {
            m.act.push_back(15);
        }
    }
    bool all_copyable = true;
    for (int t : m.act) {
        all_copyable = all_copyable && ops[t]->copyable;
    }
    m.max_entities = 300;
    static const std::vector<std::vector<unsigned>> profiles{
        // record direct flush switch
        { 8, 3, 2, 1 },
        { 12, 0, 1, 0 },
        { 5, 6, 3, 1 },
        { 20, 3, 1, 0 },
    };
    auto w = profiles[s.draw(profiles.size())];
    auto pre = s.small(12);
    for (u64 i = 0; i < pre; i++) {
        m.op_create(m.regs[m.target]);
    }
    m.rebuild_shadow();
    s.set_len(4 + s.small(80));
    {
        std::unique_ptr<co_ecs::command_writer> wr = std::make_unique<co_ecs::command_writer>(*m.regs[m.target].r);
        while (s.more()) {
            c.steps++;
            switch (s.weighted(w)) {
            case 0:
                m.op_record(*wr);
                m.unchanged("after recording");
                break;
            case 1:
                if (!all_copyable) {
                    // a direct change could make a pending clone fail
                    bool clones = false;
                    for (auto& k : m.pending) {
                        clones = clones || k.what == 4;
                    }
                    if (clones) {
                        break;
                    }
                }
                m.op_direct();
                break;
            case 2:
                m.op_flush();
                break;
            default:
                if (m.pending.empty() && m.regs.size() > 1) {
                    m.target = 1 - m.target;
                    PBT_NOTE(c, "now using r" << m.target);
                    wr = std::make_unique<co_ecs::command_writer>(*m.regs[m.target].r);
                    m.rebuild_shadow();
                }
            }
        }
        m.op_flush();
    }
    for (auto& g : m.regs) {
        m.verify_all(g);
    }
    m.finish_labels();
    c.label("commands", m.recorded);
    c.label("commands on entities created by commands", m.on_new);
    c.label("flushes", m.flushes);
    c.label("direct operations with commands pending", m.direct);
    if (m.recorded >= 4 && (m.on_new > 0 || m.chained > 0) && m.flushes > 0) {
        c.nontrivial();
    }
}
pbt::registrar r1({ "C08", "command", case_command, 60000, 1500000,
    "random sequences of recorded commands (create, set, remove, destroy, clone, chained through one command reference, "
    "also on entities created by pending commands) mixed with direct operations and flushes on 1-2 registries; before the "
    "flush the registry must be unchanged, after it everything must equal a model that executes the operations in "
    "recording order, a second flush changes nothing; non-trivial: at least 4 commands, one of them on an entity created by "
    "a command or chained" });
} // namespace
} // namespace rt
