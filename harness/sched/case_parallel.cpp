// C13: parallel_for and view::par_each under generated schedules.
#include "shim.hpp"

#include <co_ecs/co_ecs.hpp>
#include <co_ecs/thread_pool/parallel_for.hpp>

namespace {
using sched::quiet;
using u64 = std::uint64_t;
using co_ecs::task_t;
using co_ecs::thread_pool;

struct elem {
    u64 id;
    u64 val;
};

// components of very different sizes: from thousands to a handful per chunk
struct tag {
    u64 id;
};
struct mid {
    u64 v;
    char pad[504];
};
struct fat {
    u64 v;
    char pad[3000];
};
struct none_ {};

enum kind_t { VEC, CVEC, SPAN, LIST, IOTA, DEQUE, RVEC, TRANSFORM, FILTER, SUB, MAP, REV, KINDS };
const char* kind_names[] = { "vector", "const vector", "span", "list", "iota", "deque", "rvalue vector", "transform view", "filter view",
    "subrange", "map", "reverse view" };
enum act_t { NOTHING, YIELD, NESTED, TASK };

struct job {
    bool registry{};
    kind_t kind{};
    u64 n{};
    // registry jobs
    int view_kind{};
    std::vector<std::array<u64, 3>> pops; // archetype mask, entities, destroyed at the front
    // per element
    std::vector<std::uint8_t> act;
    std::vector<std::unique_ptr<job>> sub; // by element
    // run time: plain memory, race-checked
    std::vector<u64> count;
    std::vector<u64> wrote;
    std::vector<u64> expect; // 1: must be visited
    u64 touched{};           // atomic enough: written under quiet
};

struct world {
    pbt::ctx& c;
    pbt::source& s;
    u64 total{}, budget;
    std::size_t workers;
    u64 foreign{}, calls{}, nested{}, large{};
    u64 seq{};

    world(pbt::ctx& c, std::size_t workers, u64 budget) : c(c), s(c.src), budget(budget), workers(workers) {
    }

    std::unique_ptr<job> gen(int depth, bool allow_registry) {
        auto j = std::make_unique<job>();
        j->registry = allow_registry && s.draw(2) == 1;
        if (j->registry) {
            j->view_kind = static_cast<int>(s.draw(9));
            auto pops = 1 + s.small(5);
            for (u64 i = 0; i < pops; i++) {
                s.mark();
                auto mask = s.draw(8); // 1: tag is always there; bit 0 mid, bit 1 fat, bit 2 none_
                auto per = (mask & 2) ? 5u : (mask & 1) ? 31u : 300u;
                u64 cnt = 0;
                switch (s.draw(4)) {
                case 0:
                    cnt = s.small(3);
                    break;
                case 1:
                    cnt = s.draw(per * 4);
                    break;
                case 2:
                    cnt = per * s.draw(6);
                    break;
                default:
                    cnt = s.draw(40);
                }
                cnt = std::min<u64>(cnt, 120);
                if (depth == 0 && s.draw(100) == 99) {
                    cnt = s.draw(1500);
                    budget += cnt;
                    large++;
                }
                cnt = std::min<u64>(cnt, budget > total ? budget - total : 0);
                auto del = s.draw(4) == 3 ? s.draw(cnt + 1) : 0;
                j->pops.push_back({ mask, cnt, del });
                j->n += cnt;
                total += cnt;
            }
        } else {
            j->kind = static_cast<kind_t>(s.draw(KINDS));
            switch (s.draw(5)) {
            case 0:
                j->n = s.small(12);
                break;
            case 1:
                j->n = workers * s.draw(12);
                break;
            case 2:
                j->n = workers * (1 + s.draw(9)) + s.draw(workers);
                break;
            case 3:
                j->n = workers * (1 + s.draw(9)) - 1;
                break;
            default:
                j->n = s.draw(depth == 0 ? 200 : 30);
            }
            if (depth == 0 && s.draw(60) == 59) {
                j->n = s.draw(6000);
                budget += j->n;
                large++;
            }
            j->n = std::min<u64>(j->n, budget > total ? budget - total : 0);
            total += j->n;
        }
        j->act.assign(j->n, NOTHING);
        j->sub.resize(j->n);
        if (j->n != 0) {
            auto specials = s.small(depth == 0 ? 6 : 2);
            for (u64 k = 0; k < specials; k++) {
                s.mark();
                auto at = s.draw(j->n);
                auto a = static_cast<act_t>(s.weighted({ 1, 2, depth < 3 ? 3u : 0u, 2 }));
                j->act[at] = a;
                if (a == NESTED) {
                    j->sub[at] = gen(depth + 1, depth < 2);
                    nested++;
                }
            }
        }
        return j;
    }

    void body(job& j, u64 i) {
        auto wid = thread_pool::current_worker().id();
        bool in_range = i < j.count.size();
        {
            quiet q;
            PBT_CHECK(in_range, "the function was called for an element that does not exist: " << i << " of " << j.n);
            PBT_CHECK(j.expect[i] == 1, "the function was called for element " << i << ", which is not one of the range");
            PBT_CHECK(wid < workers, "runs on worker " << wid << " of " << workers);
            foreign += sched::self() != 1;
            calls++;
            seq++;
        }
        j.count[i]++;
        j.wrote[i] = i * 31 + 11;
        switch (i < j.act.size() ? j.act[i] : NOTHING) {
        case NOTHING:
            break;
        case YIELD:
            std::this_thread::yield();
            break;
        case NESTED:
            if (j.sub[i]) {
                run(*j.sub[i]);
            }
            break;
        case TASK: {
            u64 x = 0;
            auto* t = thread_pool::get().submit([&] { x = i + 1; });
            thread_pool::get().wait(t);
            {
                quiet q;
            }
            u64 y = x;
            quiet q;
            PBT_CHECK(y == i + 1, "a task submitted from the function has not run after wait");
            break;
        }
        }
    }

    void begin(job& j, u64 size, const std::vector<u64>* only = nullptr) {
        j.count.assign(size, 0);
        j.wrote.assign(size, 0);
        j.expect.assign(size, only == nullptr ? 1 : 0);
        if (only) {
            for (auto i : *only) {
                j.expect[i] = 1;
            }
        }
    }
    void end(job& j, const char* what) {
        for (u64 i = 0; i < j.count.size(); i++) {
            u64 n = j.count[i], w = j.wrote[i];
            quiet q;
            PBT_CHECK(n == j.expect[i], "after " << what << " over " << j.n << " elements on " << workers << " workers the function has run " << n
                                                 << " times for element " << i << ", expected " << j.expect[i]);
            PBT_CHECK(n == 0 || w == i * 31 + 11, "what the function wrote for element " << i << " is not visible after " << what);
        }
    }

    /// applies to the elements themselves
    template<typename R>
    void over(job& j, R&& range, const std::vector<const elem*>& at) {
        co_ecs::parallel_for(std::forward<R>(range), [&](auto& e) {
            u64 id = e.id;
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(e)>>) {
                e.val += id + 3;
            }
            {
                quiet q;
                PBT_CHECK(id < at.size() && at[id] == &e, "the function got something else than an element of the range");
            }
            body(j, id);
        });
    }
    template<typename C>
    static std::vector<const elem*> addresses(C& c, u64 n) {
        std::vector<const elem*> r(n);
        for (auto& e : c) {
            r[e.id] = &e;
        }
        return r;
    }
    template<typename C>
    void values(job& j, C& c) {
        for (auto& e : c) {
            u64 id = e.id, v = e.val;
            quiet q;
            PBT_CHECK(v == id * 2 + id + 3, "the change the function made to element " << id << " is lost: " << v);
        }
    }

    void run(job& j) {
        if (j.registry) {
            run_registry(j);
            return;
        }
        {
            quiet q;
            PBT_NOTE(c, "T" << sched::self() - 1 << " parallel_for over " << kind_names[j.kind] << " of " << j.n);
        }
        std::vector<elem> v;
        v.reserve(j.n);
        for (u64 i = 0; i < j.n; i++) {
            v.push_back({ i, i * 2 });
        }
        begin(j, j.n);
        switch (j.kind) {
        case VEC:
            over(j, v, addresses(v, j.n));
            values(j, v);
            break;
        case CVEC:
            over(j, std::as_const(v), addresses(v, j.n));
            break;
        case SPAN:
            over(j, std::span<elem>(v), addresses(v, j.n));
            values(j, v);
            break;
        case LIST: {
            std::list<elem> l(v.begin(), v.end());
            over(j, l, addresses(l, j.n));
            values(j, l);
            break;
        }
        case IOTA:
            co_ecs::parallel_for(std::views::iota(0, static_cast<int>(j.n)), [&](int i) { body(j, static_cast<u64>(i)); });
            break;
        case DEQUE: {
            std::deque<elem> d(v.begin(), v.end());
            over(j, d, addresses(d, j.n));
            values(j, d);
            break;
        }
        case RVEC: {
            auto at = addresses(v, j.n);
            over(j, std::move(v), at);
            break;
        }
        case TRANSFORM:
            co_ecs::parallel_for(v | std::views::transform([](const elem& e) { return e.id; }), [&](u64 i) { body(j, i); });
            break;
        case FILTER: {
            std::vector<u64> only;
            for (u64 i = 0; i < j.n; i++) {
                if (i % 3 != 1) {
                    only.push_back(i);
                }
            }
            begin(j, j.n, &only);
            co_ecs::parallel_for(v | std::views::filter([](const elem& e) { return e.id % 3 != 1; }), [&](elem& e) { body(j, e.id); });
            break;
        }
        case SUB: {
            u64 a = j.n / 3, b = j.n - j.n / 4;
            std::vector<u64> only;
            for (u64 i = a; i < b; i++) {
                only.push_back(i);
            }
            begin(j, j.n, &only);
            co_ecs::parallel_for(std::ranges::subrange(v.begin() + static_cast<std::ptrdiff_t>(a), v.begin() + static_cast<std::ptrdiff_t>(b)),
                [&](elem& e) { body(j, e.id); });
            break;
        }
        case MAP: {
            std::map<u64, elem> m;
            for (auto& e : v) {
                m[e.id] = e;
            }
            co_ecs::parallel_for(m, [&](auto& p) { body(j, p.second.id); });
            break;
        }
        case REV:
            co_ecs::parallel_for(v | std::views::reverse, [&](elem& e) { body(j, e.id); });
            break;
        default:
            break;
        }
        end(j, "parallel_for");
    }

    void run_registry(job& j) {
        co_ecs::registry r;
        std::vector<co_ecs::entity> all;
        std::vector<u64> masks;
        u64 id = 0;
        for (auto& [mask, cnt, del] : j.pops) {
            std::vector<co_ecs::entity> mine;
            for (u64 k = 0; k < cnt; k++, id++) {
                tag t{ id };
                mid m{ id + 1, {} };
                fat f{ id + 2, {} };
                switch (mask) {
                case 0: mine.push_back(r.create<tag>({ t.id })); break;
                case 1: mine.push_back(r.create<tag, mid>({ t.id }, mid(m))); break;
                case 2: mine.push_back(r.create<tag, fat>({ t.id }, fat(f))); break;
                case 3: mine.push_back(r.create<mid, fat, tag>(mid(m), fat(f), { t.id })); break;
                case 4: mine.push_back(r.create<tag, none_>({ t.id }, {})); break;
                case 5: mine.push_back(r.create<tag, none_, mid>({ t.id }, {}, mid(m))); break;
                case 6: mine.push_back(r.create<fat, tag, none_>(fat(f), { t.id }, {})); break;
                default: mine.push_back(r.create<tag, mid, fat, none_>({ t.id }, mid(m), fat(f), {}));
                }
                masks.push_back(mask);
            }
            for (u64 k = 0; k < del; k++) {
                r.destroy(mine[k]);
                mine[k] = co_ecs::entity::invalid();
            }
            all.insert(all.end(), mine.begin(), mine.end());
        }
        static constexpr u64 need[] = { 0, 1, 2, 3, 0, 1, 4, 3, 2 };
        std::vector<u64> only;
        for (u64 i = 0; i < id; i++) {
            if (all[i] != co_ecs::entity::invalid() && (masks[i] & need[j.view_kind]) == need[j.view_kind]) {
                only.push_back(i);
            }
        }
        {
            quiet q;
            PBT_NOTE(c, "T" << sched::self() - 1 << " par_each, view kind " << j.view_kind << ", " << only.size() << " of " << id << " entities match");
        }
        begin(j, id, &only);
        auto ent_ok = [&](const co_ecs::entity& e, u64 i) {
            co_ecs::entity x = e;
            quiet q;
            PBT_CHECK(i < all.size() && all[i] == x, "par_each passes the wrong entity for the component of entity " << i);
        };
        auto val_ok = [&](u64 got, u64 want) {
            quiet q;
            PBT_CHECK(got == want, "par_each passes the wrong component: " << got << ", expected " << want);
        };
        switch (j.view_kind) {
        case 0: {
            co_ecs::view<tag&> v{ r };
            v.par_each([&](tag& t) { body(j, t.id); });
            break;
        }
        case 1: {
            co_ecs::view<mid&, const tag&> v{ r };
            v.par_each([&](mid& m, const tag& t) {
                val_ok(m.v, t.id + 1);
                m.v += 5;
                body(j, t.id);
            });
            for (auto i : only) {
                val_ok(r.get_entity(all[i]).get<mid>().v, i + 6);
            }
            break;
        }
        case 2: {
            co_ecs::view<const tag&, fat&> v{ r };
            v.par_each([&](const tag& t, fat& f) {
                val_ok(f.v, t.id + 2);
                f.v += 9;
                body(j, t.id);
            });
            for (auto i : only) {
                val_ok(r.get_entity(all[i]).get<fat>().v, i + 11);
            }
            break;
        }
        case 3: {
            co_ecs::view<const co_ecs::entity&, mid&, const fat&, tag&> v{ r };
            v.par_each([&](const co_ecs::entity& e, mid& m, const fat& f, tag& t) {
                ent_ok(e, t.id);
                val_ok(m.v, t.id + 1);
                val_ok(f.v, t.id + 2);
                body(j, t.id);
            });
            break;
        }
        case 4: {
            const auto& cr = r;
            co_ecs::view<const tag&, const co_ecs::entity&> v{ cr };
            v.par_each([&](const tag& t, const co_ecs::entity& e) {
                ent_ok(e, t.id);
                body(j, t.id);
            });
            break;
        }
        case 5: {
            const auto& cr = r;
            const co_ecs::view<const mid&, const tag&> v{ cr };
            v.par_each([&](const mid& m, const tag& t) {
                val_ok(m.v, t.id + 1);
                body(j, t.id);
            });
            break;
        }
        case 6: {
            co_ecs::view<const none_&, const tag&> v{ r };
            v.par_each([&](const none_&, const tag& t) { body(j, t.id); });
            break;
        }
        case 7: { // through the chunks, as the range of parallel_for
            co_ecs::view<mid&, const fat&, const tag&> v{ r };
            co_ecs::parallel_for(v.chunks(), [&](auto chunk) {
                for (auto [m, f, t] : chunk) {
                    val_ok(m.v, t.id + 1);
                    body(j, t.id);
                }
            });
            break;
        }
        default: { // twice with the same view
            co_ecs::view<fat&, const tag&> v{ r };
            v.par_each([&](fat& f, const tag&) { f.v++; });
            v.par_each([&](fat& f, const tag& t) {
                val_ok(f.v, t.id + 3);
                body(j, t.id);
            });
        }
        }
        end(j, "par_each");
    }
};

void case_parallel(pbt::ctx& c) {
    auto& s = c.src;
    auto o = sched::draw_options(s);
    static constexpr std::size_t ws[] = { 2, 3, 1, 4, 5, 7 };
    auto workers = ws[s.draw(6)];
    world w(c, workers, 420);
    auto roots = 1 + s.small(3);
    std::vector<std::unique_ptr<job>> jobs;
    std::vector<u64> in_task;
    for (u64 i = 0; i < roots; i++) {
        s.mark();
        jobs.push_back(w.gen(0, true));
        in_task.push_back(s.draw(3) == 2);
    }
    o.budget += w.total * 300 + 20000;
    sched::run(c, o, [&] {
        thread_pool pool(workers);
        std::vector<task_t*> open;
        for (u64 i = 0; i < roots; i++) {
            if (in_task[i]) {
                open.push_back(pool.submit([&, i] { w.run(*jobs[i]); }));
            } else {
                w.run(*jobs[i]);
            }
        }
        for (auto* t : open) {
            pool.wait(t);
        }
    });
    c.label("ranges of up to 6000 elements", w.large);
    c.label("elements visited", w.calls);
    c.label("elements visited on other threads", w.foreign);
    c.label("nested calls", w.nested);
    c.label("preemptions", sched::preemptions());
    for (auto& j : jobs) {
        c.label(j->registry ? "par_each at top level" : "parallel_for at top level");
    }
    if (sched::stale_reads()) {
        c.label("case: stale reads");
    }
    if (w.foreign > 0 && w.calls > 3) {
        c.nontrivial();
    }
}

pbt::registrar r1({ "C13", "parallel", case_parallel, 50000, 4000000,
    "parallel_for over 12 kinds of ranges of 0-200, rarely 6000, elements (sizes around multiples of the worker count) and par_each over 9 "
    "kinds of mutable and const views of registries with 0-30 chunks, on 1-7 workers, from the main thread, from tasks and "
    "nested up to 4 deep, under generated schedules; each element is visited once, in place, nothing else is visited, and all "
    "effects are finished and visible on return (happens-before race check); hangs are detected; non-trivial: more than 3 "
    "elements, some of them visited on another thread" });
} // namespace
