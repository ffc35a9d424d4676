// C09 (concurrent part) and C21: threads reserving entities, threads recording commands.
#include "shim.hpp"

#include <co_ecs/co_ecs.hpp>
#include <co_ecs/command.hpp>

namespace {
using sched::quiet;
using u64 = std::uint64_t;
using co_ecs::entity;

u64 key(entity e) {
    return (u64(e.generation()) << 32) | e.id();
}
std::string show(entity e) {
    return "<" + std::to_string(e.id()) + ":" + std::to_string(e.generation()) + ">";
}

struct ca {
    u64 v;
};
struct cb {
    std::string v; // owns memory
    u64 n;
};
/// counts its living instances
struct cc {
    static inline std::int64_t live{};
    u64 v;
    explicit cc(u64 v) noexcept : v(v) {
        quiet q;
        live++;
    }
    cc(const cc& o) noexcept : cc(o.v) {
    }
    cc(cc&& o) noexcept : cc(o.v) {
    }
    cc& operator=(const cc&) noexcept = default;
    cc& operator=(cc&&) noexcept = default;
    ~cc() {
        quiet q;
        live--;
    }
};
std::string text(u64 v) {
    return "component value " + std::to_string(v) + " in a string that is too long for the small buffer";
}

struct ment {
    entity h;
    std::array<u64, 3> val{}; // 0: does not have the component
};

// ---------------------------------------------------------------------------------------------------------------- C09

struct resv_world {
    pbt::ctx& c;
    pbt::source& s;
    co_ecs::registry r;
    std::vector<ment> ents;
    std::vector<entity> dead;
    std::unordered_set<u64> ever;
    struct held_t {
        co_ecs::placeholder_entity p;
        bool synced;
    };
    std::vector<held_t> held;
    u64 next{ 1 };
    bool reused{}, crossed{}, overlapped{};

    explicit resv_world(pbt::ctx& c) : c(c), s(c.src) {
    }
    void fresh(entity h, const char* how) {
        PBT_CHECK(h.valid(), how << " gave an invalid handle");
        PBT_CHECK(ever.insert(key(h)).second, how << " gave handle " << show(h) << ", which was given out before");
        reused = reused || h.generation() > 0;
    }
    void create() {
        ment e;
        e.val[0] = next++;
        if (s.draw(2)) {
            e.val[1] = next++;
            e.h = r.create<cb, ca>({ text(e.val[1]), e.val[1] }, { e.val[0] });
        } else {
            e.h = r.create<ca>({ e.val[0] });
        }
        PBT_NOTE(c, "create -> " << show(e.h));
        fresh(e.h, "create");
        ents.push_back(e);
    }
    void destroy(std::size_t i) {
        PBT_NOTE(c, "destroy " << show(ents[i].h));
        r.destroy(ents[i].h);
        dead.push_back(ents[i].h);
        ents[i] = ents.back();
        ents.pop_back();
    }
    void verify() {
        for (auto& e : ents) {
            PBT_CHECK(r.alive(e.h), "entity " << show(e.h) << " is not alive any more");
            auto v = r.get_entity(e.h).get<ca>().v;
            PBT_CHECK(v == e.val[0], "entity " << show(e.h) << " has lost its component: " << v << ", expected " << e.val[0]);
            if (e.val[1]) {
                PBT_CHECK(r.get_entity(e.h).get<cb>().v == text(e.val[1]), "entity " << show(e.h) << " has lost its string component");
            }
        }
        for (auto h : dead) {
            PBT_CHECK(!r.alive(h), "destroyed entity " << show(h) << " is alive again");
        }
        for (auto& p : held) {
            PBT_CHECK(!p.synced || r.alive(p.p.get_entity()), "reserved entity " << show(p.p.get_entity()) << " is not alive after sync");
        }
    }
    void do_sync() {
        PBT_NOTE(c, "sync");
        r.sync();
        for (auto& p : held) {
            p.synced = true;
        }
        verify();
    }
    void fill() {
        if (held.empty() || ents.empty()) {
            return;
        }
        if (!held.back().synced) {
            do_sync();
        }
        auto k = s.draw(held.size());
        auto i = s.draw(ents.size());
        auto p = held[k].p;
        held.erase(held.begin() + static_cast<std::ptrdiff_t>(k));
        PBT_NOTE(c, "clone " << show(ents[i].h) << " into reserved " << show(p.get_entity()));
        entity h = r.get_entity(ents[i].h).clone(p);
        PBT_CHECK(h == p.get_entity(), "clone into " << show(p.get_entity()) << " returned " << show(h));
        ment e = ents[i];
        e.h = h;
        ents.push_back(e);
    }
};

struct plan_r {
    u64 n;
    u64 kind; // 0: only reserves, 1: reads living entities in between, 2: writes its own entities in between
    std::vector<u64> pick;
};

void case_reserve_mt(pbt::ctx& c) {
    auto& s = c.src;
    auto o = sched::draw_options(s);
    o.budget += 30000;
    auto rounds = 1 + s.small(4);
    std::unique_ptr<resv_world> w;
    u64 total = 0;
    sched::run(c, o, [&] {
        w = std::make_unique<resv_world>(c);
        auto& r = w->r;
        for (u64 round = 0; round < rounds; round++) {
            s.mark();
            // some history
            auto ops = s.small(24);
            for (u64 k = 0; k < ops; k++) {
                s.mark();
                switch (s.weighted({ 5, 4, 1, 2 })) {
                case 0:
                    w->create();
                    break;
                case 1:
                    if (!w->ents.empty()) {
                        w->destroy(s.draw(w->ents.size()));
                    }
                    break;
                case 2:
                    w->do_sync();
                    break;
                default:
                    w->fill();
                }
            }
            w->verify();
            // concurrent reservations
            auto threads = 1 + s.draw(4);
            std::vector<plan_r> plan(threads + 1);
            for (auto& p : plan) {
                s.mark();
                p.n = s.small(9);
                p.kind = s.draw(3);
                for (u64 k = 0; k < p.n + 1; k++) {
                    p.pick.push_back(s.draw(64));
                }
            }
            std::vector<std::vector<co_ecs::placeholder_entity>> got(plan.size());
            auto work = [&](std::size_t t) {
                auto& p = plan[t];
                for (u64 k = 0; k <= p.n; k++) {
                    if (p.kind != 0 && !w->ents.empty()) {
                        auto i = p.pick[k] % w->ents.size();
                        if (p.kind == 1) {
                            auto& e = w->ents[i];
                            bool alive = r.alive(e.h);
                            bool has = std::as_const(r).get_entity(e.h).has<ca>();
                            quiet q;
                            PBT_CHECK(alive && has, "entity " << show(e.h) << " disappeared while entities were reserved");
                        } else if (i % plan.size() == t) { // entities are split among the threads
                            auto& x = r.get_entity(w->ents[i].h).get<ca>();
                            x.v += 1;
                            w->ents[i].val[0] += 1;
                        }
                    }
                    if (k == p.n) {
                        break;
                    }
                    auto h = r.reserve();
                    quiet q;
                    PBT_NOTE(c, "T" << sched::self() - 1 << " reserve -> " << show(h.get_entity()));
                    got[t].push_back(h);
                }
            };
            std::vector<std::thread> ts;
            for (std::size_t t = 1; t < plan.size(); t++) {
                ts.emplace_back(work, t);
            }
            work(0);
            for (auto& t : ts) {
                t.join();
            }
            bool old_ids = false, new_ids = false;
            for (auto& g : got) {
                for (auto p : g) {
                    auto h = p.get_entity();
                    w->fresh(h, "reserve");
                    for (auto& e : w->ents) {
                        PBT_CHECK(e.h.id() != h.id(), "reserve gave " << show(h) << ", the id of living entity " << show(e.h));
                    }
                    w->held.push_back({ p, false });
                    (h.generation() > 0 ? old_ids : new_ids) = true;
                    total++;
                }
            }
            w->crossed = w->crossed || (old_ids && new_ids);
            if (s.draw(3) != 0) {
                w->do_sync();
            }
            w->verify();
        }
        w->do_sync();
        for (int k = 0; k < 12; k++) {
            w->create();
        }
        w->verify();
        while (!w->held.empty() && !w->ents.empty()) {
            w->fill();
        }
        while (!w->ents.empty()) {
            w->destroy(w->ents.size() - 1);
        }
        for (int k = 0; k < 12; k++) {
            w->create();
        }
        w->verify();
        c.label("case: recycled and new ids in one round", w->crossed);
        if (total >= 3 && w->crossed && sched::preemptions() > 0) {
            c.nontrivial();
        }
        w.reset();
    });
    c.label("reservations", total);
    c.label("preemptions", sched::preemptions());
}

// ---------------------------------------------------------------------------------------------------------------- C21

enum cmd_kind { CREATE, SET, REMOVE, DESTROY, CLONE };
struct cmd {
    cmd_kind kind;
    int ent;   // model index: target, or the new entity
    int from;  // clone: source
    int comp;
    unsigned mask;
    std::array<u64, 3> val{};
};
struct batch { // what one thread records between two flushes
    std::vector<cmd> cmds;
    bool spurious{}; // only makes a writer
};

struct cmd_world {
    pbt::ctx& c;
    pbt::source& s;
    std::unique_ptr<co_ecs::registry> r;
    std::vector<ment> ents;     // model after the next flush
    std::vector<bool> gone;     // destroyed
    std::vector<entity> handle; // written by the creating thread
    std::vector<entity> dead;
    std::unordered_set<u64> ever;
    u64 next{ 1 };
    u64 cmds{}, ended_before{}, exiting{}, threads{};

    explicit cmd_world(pbt::ctx& c) : c(c), s(c.src) {
    }

    /// commands of one thread; owner[e]: bit set of the components of entity e it may touch, 8: the entity as a whole
    batch gen(const std::vector<unsigned>& owner) {
        batch b;
        auto len = s.small(10);
        std::vector<std::pair<int, unsigned>> mine;
        for (std::size_t e = 0; e < owner.size(); e++) {
            if (owner[e] != 0 && !gone[e]) {
                mine.emplace_back(static_cast<int>(e), owner[e]);
            }
        }
        for (u64 k = 0; k < len; k++) {
            s.mark();
            auto kind = static_cast<cmd_kind>(s.weighted({ 4, 6, 3, 2, 3 }));
            if (kind != CREATE && mine.empty()) {
                kind = CREATE;
            }
            cmd x{};
            x.kind = kind;
            if (kind == CREATE) {
                x.mask = 1 + static_cast<unsigned>(s.draw(7));
                ment m;
                for (int i = 0; i < 3; i++) {
                    if (x.mask >> i & 1) {
                        m.val[i] = x.val[i] = next++;
                    }
                }
                x.ent = static_cast<int>(ents.size());
                ents.push_back(m);
                gone.push_back(false);
                mine.emplace_back(x.ent, 15);
                b.cmds.push_back(x);
                continue;
            }
            auto at = s.draw(mine.size());
            auto [e, may] = mine[at];
            x.ent = e;
            x.comp = static_cast<int>(s.draw(3));
            while (!(may >> x.comp & 1)) {
                x.comp = (x.comp + 1) % 3;
            }
            switch (kind) {
            case SET:
                ents[e].val[x.comp] = x.val[x.comp] = next++;
                break;
            case REMOVE:
                ents[e].val[x.comp] = 0;
                break;
            case DESTROY:
                if (may != 15) {
                    continue;
                }
                gone[e] = true;
                mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(at));
                break;
            default: {
                if (may != 15) {
                    continue;
                }
                x.from = e;
                x.ent = static_cast<int>(ents.size());
                auto m = ents[e];
                ents.push_back(m);
                gone.push_back(false);
                mine.emplace_back(x.ent, 15);
            }
            }
            b.cmds.push_back(x);
        }
        return b;
    }

    void record(const batch& b) {
        co_ecs::command_writer w{ *r };
        for (auto& x : b.cmds) {
            switch (x.kind) {
            case CREATE: {
                auto v = x.val;
                entity h = [&]() -> entity {
                    switch (x.mask) {
                    case 1: return w.create<ca>({ v[0] });
                    case 2: return w.create<cb>({ text(v[1]), v[1] });
                    case 3: return w.create<ca, cb>({ v[0] }, { text(v[1]), v[1] });
                    case 4: return w.create<cc>(cc{ v[2] });
                    case 5: return w.create<cc, ca>(cc{ v[2] }, { v[0] });
                    case 6: return w.create<cb, cc>({ text(v[1]), v[1] }, cc{ v[2] });
                    default: return w.create<cb, ca, cc>({ text(v[1]), v[1] }, { v[0] }, cc{ v[2] });
                    }
                }();
                note(x, h);
                handle[static_cast<std::size_t>(x.ent)] = h;
                break;
            }
            case SET: {
                auto h = handle[static_cast<std::size_t>(x.ent)];
                note(x, h);
                if (x.comp == 0) {
                    w.get_entity(h).set<ca>(x.val[0]);
                } else if (x.comp == 1) {
                    w.get_entity(h).set<cb>(text(x.val[1]), x.val[1]);
                } else {
                    w.get_entity(h).set<cc>(x.val[2]);
                }
                break;
            }
            case REMOVE: {
                auto h = handle[static_cast<std::size_t>(x.ent)];
                note(x, h);
                if (x.comp == 0) {
                    w.get_entity(h).remove<ca>();
                } else if (x.comp == 1) {
                    w.get_entity(h).remove<cb>();
                } else {
                    w.get_entity(h).remove<cc>();
                }
                break;
            }
            case DESTROY: {
                auto h = handle[static_cast<std::size_t>(x.ent)];
                note(x, h);
                if (x.comp == 1) {
                    w.destroy(h);
                } else {
                    w.get_entity(h).destroy();
                }
                break;
            }
            case CLONE: {
                auto from = handle[static_cast<std::size_t>(x.from)];
                entity h = w.get_entity(from).clone();
                note(x, h);
                handle[static_cast<std::size_t>(x.ent)] = h;
            }
            }
            quiet q;
            cmds++;
        }
    }
    void note(const cmd& x, entity h) {
        quiet q;
        static const char* names[] = { "create", "set", "remove", "destroy", "clone" };
        PBT_NOTE(c, "T" << sched::self() - 1 << " records " << names[x.kind] << " " << show(h) << " comp " << x.comp << " mask " << x.mask);
        if (x.kind == CREATE || x.kind == CLONE) {
            PBT_CHECK(ever.insert(key(h)).second, "handle " << show(h) << " given to a command was given out before");
        }
    }
    void verify() {
        u64 alive = 0;
        std::int64_t counted = 0;
        for (std::size_t e = 0; e < ents.size(); e++) {
            auto h = handle[e];
            if (gone[e]) {
                PBT_CHECK(!r->alive(h), "entity " << show(h) << ", destroyed by a command, is alive");
                continue;
            }
            alive++;
            PBT_CHECK(r->alive(h), "entity " << show(h) << " (" << e << ") is not alive after the flush");
            auto x = r->get_entity(h);
            auto& m = ents[e];
            PBT_CHECK(x.has<ca>() == (m.val[0] != 0) && x.has<cb>() == (m.val[1] != 0) && x.has<cc>() == (m.val[2] != 0),
                "entity " << show(h) << " (" << e << ") has components " << x.has<ca>() << x.has<cb>() << x.has<cc>() << ", expected "
                          << (m.val[0] != 0) << (m.val[1] != 0) << (m.val[2] != 0));
            PBT_CHECK(m.val[0] == 0 || x.get<ca>().v == m.val[0],
                "component 0 of entity " << show(h) << " (" << e << ") is " << x.get<ca>().v << ", expected " << m.val[0]);
            PBT_CHECK(m.val[1] == 0 || (x.get<cb>().v == text(m.val[1]) && x.get<cb>().n == m.val[1]),
                "component 1 of entity " << show(h) << " (" << e << ") is " << x.get<cb>().n << ", expected " << m.val[1]);
            PBT_CHECK(m.val[2] == 0 || x.get<cc>().v == m.val[2],
                "component 2 of entity " << show(h) << " (" << e << ") is " << x.get<cc>().v << ", expected " << m.val[2]);
            counted += m.val[2] != 0;
        }
        u64 n = 0;
        r->view<const entity&>().each([&](const entity&) { n++; });
        PBT_CHECK(n == alive, "the registry has " << n << " entities, expected " << alive);
        PBT_CHECK(cc::live == counted, cc::live << " instances of component 2 exist after the flush, expected " << counted);
    }
};

enum fate { ENDS_BEFORE, ENDS_DURING, STAYS };
struct member {
    std::thread t;
    std::unique_ptr<std::counting_semaphore<>> go, done;
    const batch* job{};
    bool quit_after{};
    bool joined{};
};

void case_commands_mt(pbt::ctx& c) {
    auto& s = c.src;
    auto o = sched::draw_options(s);
    o.budget += 60000;
    auto rounds = 1 + s.small(5);
    cmd_world w(c);
    cc::live = 0;
    sched::run(c, o, [&] {
        w.r = std::make_unique<co_ecs::registry>();
        std::vector<std::unique_ptr<member>> members; // long-lived threads
        auto initial = s.small(10);
        for (u64 k = 0; k < initial; k++) {
            ment m;
            m.val[0] = w.next++;
            m.val[2] = s.draw(2) ? w.next++ : 0;
            entity h = m.val[2] ? entity(w.r->create<ca, cc>({ m.val[0] }, cc{ m.val[2] })) : entity(w.r->create<ca>({ m.val[0] }));
            if (s.draw(4) == 3) {
                w.ever.insert(key(h));
                w.r->destroy(h);
                continue;
            }
            w.ever.insert(key(h));
            w.ents.push_back(m);
            w.gone.push_back(false);
            w.handle.push_back(h);
        }
        for (u64 round = 0; round < rounds; round++) {
            s.mark();
            // recorders of this round: main, the threads that stayed, new threads
            auto fresh = s.small(3) + (round == 0 && members.empty() ? 1 : 0);
            auto n0 = members.size();
            for (u64 k = 0; k < fresh && w.threads < 20; k++) {
                members.push_back(std::make_unique<member>());
                members.back()->go = std::make_unique<std::counting_semaphore<>>(0);
                members.back()->done = std::make_unique<std::counting_semaphore<>>(0);
                w.threads++;
            }
            auto nrec = members.size() + 1;
            // who may touch what
            std::vector<std::vector<unsigned>> owner(nrec, std::vector<unsigned>(w.ents.size(), 0));
            for (std::size_t e = 0; e < w.ents.size(); e++) {
                if (w.gone[e]) {
                    continue;
                }
                if (s.draw(3) != 2) {
                    owner[s.draw(nrec)][e] = 15;
                } else {
                    for (unsigned i = 0; i < 3; i++) {
                        owner[s.draw(nrec)][e] |= 1u << i;
                    }
                }
            }
            std::vector<batch> jobs;
            std::vector<u64> fates;
            for (std::size_t t = 0; t < nrec; t++) {
                s.mark();
                jobs.push_back(w.gen(owner[t]));
                fates.push_back(s.weighted({ 3, 3, 2 }));
                if (jobs.back().cmds.size() && fates.back() != STAYS && t > 0) {
                    (fates.back() == ENDS_BEFORE ? w.ended_before : w.exiting)++;
                }
            }
            w.handle.resize(w.ents.size());
            for (std::size_t t = 0; t < members.size(); t++) {
                auto& m = *members[t];
                m.job = &jobs[t + 1];
                m.quit_after = fates[t + 1] != STAYS;
                if (t >= n0) {
                    m.t = std::thread([&w, pm = &m] {
                        while (true) {
                            pm->go->acquire();
                            w.record(*pm->job);
                            bool quit = pm->quit_after;
                            pm->done->release();
                            if (quit) {
                                return;
                            }
                        }
                    });
                }
                m.go->release();
            }
            auto early = s.draw(3);
            if (early == 1) {
                w.record(jobs[0]);
            }
            for (std::size_t t = 0; t < members.size(); t++) {
                members[t]->done->acquire();
                if (fates[t + 1] == ENDS_BEFORE) {
                    members[t]->t.join();
                    members[t]->joined = true;
                }
            }
            if (early != 1) {
                w.record(jobs[0]);
            }
            // a thread that only starts while the flush is running
            std::thread late;
            bool has_late = s.draw(5) == 4;
            if (has_late) {
                late = std::thread([&w] { w.record(batch{}); });
            }
            {
                PBT_NOTE(c, "flush");
            }
            co_ecs::command_buffer::flush(*w.r);
            if (has_late) {
                late.join();
            }
            w.verify();
            if (s.draw(4) == 3) {
                co_ecs::command_buffer::flush(*w.r);
                w.verify();
            }
            // creations in between must not collide with what the threads reserved
            if (s.draw(3) == 2) {
                ment m;
                m.val[0] = w.next++;
                entity h = w.r->create<ca>({ m.val[0] });
                PBT_CHECK(w.ever.insert(key(h)).second, "create gave handle " << show(h) << ", which was given out before");
                w.ents.push_back(m);
                w.gone.push_back(false);
                w.handle.push_back(h);
            }
            std::vector<std::unique_ptr<member>> stay;
            for (std::size_t t = 0; t < members.size(); t++) {
                if (fates[t + 1] == STAYS) {
                    stay.push_back(std::move(members[t]));
                } else if (!members[t]->joined) {
                    members[t]->t.join();
                }
            }
            members = std::move(stay);
        }
        batch none;
        for (auto& m : members) {
            m->job = &none;
            m->quit_after = true;
            m->go->release();
        }
        for (auto& m : members) {
            m->t.join();
        }
        members.clear();
        co_ecs::command_buffer::flush(*w.r);
        w.verify();
        w.r.reset();
        PBT_CHECK(cc::live == 0, cc::live << " instances of component 2 exist after the registry was destroyed");
    });
    c.label("commands", w.cmds);
    c.label("threads ended before the flush of their commands", w.ended_before);
    c.label("threads ending during the flush of their commands", w.exiting);
    c.label("preemptions", sched::preemptions());
    if (w.cmds >= 3 && w.threads >= 2 && w.ended_before + w.exiting > 0) {
        c.nontrivial();
    }
}

pbt::registrar r1({ "C09", "concurrent", case_reserve_mt, 120000, 12000000,
    "rounds of create/destroy/sync/fill on one thread followed by 2-5 threads reserving at once under generated schedules "
    "(half of them with stale reads), some of them reading or writing living entities in between; handles are all distinct and "
    "new, reserved ones are alive after sync, living entities keep their values (race-checked); non-trivial: at least 3 "
    "reservations, recycled and new ids in the same round, a preemption" });
pbt::registrar r2({ "C21", "threads", case_commands_mt, 120000, 12000000,
    "1-6 flushes with up to 20 threads recording create/set/remove/destroy/clone in between under generated schedules; threads "
    "end before or during the flush or stay for the next one; entities are split among the threads, some by component; after "
    "each flush the registry equals the model in which every command took effect once in its thread's order, and component "
    "instances are all accounted for; accesses are race- and lifetime-checked; non-trivial: 3 commands, 2 threads, one of "
    "which ended before or during the flush of its commands" });
} // namespace
