// C14: the work-stealing queue under generated schedules and weak-memory behaviours.
#include "shim.hpp"

#include <co_ecs/detail/work_stealing_queue.hpp>

namespace {
using sched::quiet;
using u64 = std::uint64_t;

struct item {
    u64 id;
    u64 payload; // plain memory: written before the push, read by whoever takes the item
};

template<typename T>
struct traits;
template<>
struct traits<item*> {
    static item* make(std::deque<item>& store, u64 id) {
        item* p;
        {
            quiet q;
            p = &store.emplace_back();
        }
        p->id = id;
        p->payload = id * 7 + 3;
        return p;
    }
    static u64 id(item* const& p) {
        if (p == nullptr) {
            return ~0ull;
        }
        u64 i = p->id;
        u64 pl = p->payload;
        quiet q;
        PBT_CHECK(pl == i * 7 + 3, "the taker of item " << i << " sees payload " << pl << " instead of " << i * 7 + 3);
        return i;
    }
};
template<>
struct traits<u64> {
    static u64 make(std::deque<item>&, u64 id) {
        return (id + 1) * 0x100000001ull;
    }
    static u64 id(const u64& v) {
        return v == 0 || v % 0x100000001ull ? ~0ull : v / 0x100000001ull - 1;
    }
};
struct wide {
    std::uint32_t a, b;
};
template<>
struct traits<wide> {
    static wide make(std::deque<item>&, u64 id) {
        return { static_cast<std::uint32_t>(id + 1), static_cast<std::uint32_t>(~id) };
    }
    static u64 id(const wide& w) {
        return w.a == 0 || w.b != static_cast<std::uint32_t>(~(u64(w.a) - 1)) ? ~0ull : w.a - 1;
    }
};

template<typename T>
struct run_queue {
    pbt::ctx& c;
    pbt::source& s;
    std::deque<item> store;
    std::vector<int> delivered; // per item
    u64 pushed{}, popped{}, stolen{}, grown{}, in_steal{};
    bool long_runs{};
    co_ecs::detail::work_stealing_queue<T> q;
    std::int64_t cap;

    run_queue(pbt::ctx& c, std::int64_t cap) : c(c), s(c.src), q(cap), cap(cap) {
    }

    void got(const T& v, const char* how) {
        u64 id = traits<T>::id(v);
        quiet qq;
        PBT_CHECK(id != ~0ull && id < pushed, how << " delivered something that was never pushed");
        PBT_CHECK(delivered[id] == 0, how << " delivered item " << id << " a second time");
        delivered[id]++;
        PBT_NOTE(c, "T" << sched::self() - 1 << " " << how << " -> " << id);
    }
    void push() {
        T v = traits<T>::make(store, pushed);
        bool rv;
        {
            quiet qq;
            delivered.push_back(0);
            PBT_NOTE(c, "push " << pushed);
            pushed++;
            rv = pushed % 2 == 0;
        }
        if (rv) {
            q.push(T(v));
        } else {
            q.push(v);
        }
        quiet qq;
        auto k = q.capacity();
        if (k != cap) {
            PBT_CHECK(k > cap, "capacity went from " << cap << " to " << k);
            grown++;
            cap = k;
        }
    }
    /// outstanding items may only be held by steals that have not returned yet
    void pop(bool alone) {
        auto r = q.pop();
        if (r) {
            got(*r, "pop");
            quiet qq;
            popped++;
        } else {
            quiet qq;
            PBT_NOTE(c, "pop -> nothing");
            if (alone) {
                PBT_CHECK(popped + stolen == pushed,
                    "pop found nothing while " << pushed - popped - stolen << " items are in the queue");
            } else {
                PBT_CHECK(pushed - popped - stolen <= in_steal,
                    "pop found nothing while " << pushed - popped - stolen << " items are undelivered and only "
                                               << in_steal << " steals are in progress");
            }
        }
    }
    bool steal() {
        {
            quiet qq;
            in_steal++;
        }
        auto r = q.steal();
        if (r) {
            got(*r, "steal");
        }
        quiet qq;
        in_steal--;
        if (r) {
            stolen++;
        }
        return r.has_value();
    }
    std::deque<u64> content() {
        std::deque<u64> d;
        for (u64 i = 0; i < pushed; i++) {
            if (delivered[i] == 0) {
                d.push_back(i);
            }
        }
        return d;
    }
    void check_counts() {
        auto n = pushed - popped - stolen;
        quiet qq;
        PBT_CHECK(q.size() == n, "size() is " << q.size() << " with " << n << " items in the queue");
        PBT_CHECK(q.empty() == (n == 0), "empty() is " << q.empty() << " with " << n << " items in the queue");
        PBT_CHECK(q.capacity() >= static_cast<std::int64_t>(n), "capacity " << q.capacity() << " holds " << n << " items");
    }
    /// owner alone: exact deque behaviour
    void sequential(u64 n) {
        auto d = content();
        if (long_runs && s.draw(3000) == 2999) {
            // many items in all
            for (u64 k = s.draw(70000); k > 0; k--) {
                push();
                auto r = k % 3 ? q.pop() : q.steal();
                PBT_CHECK(r, "nothing delivered from a queue with an item");
                (k % 3 ? popped : stolen)++;
                if (k % 3 == 0 && !d.empty()) {
                    d.push_back(traits<T>::id(*r) == d.front() ? pushed - 1 : ~u64{});
                    d.pop_front();
                    PBT_CHECK(d.back() != ~u64{}, "steal took item " << traits<T>::id(*r) << ", not the oldest");
                } else {
                    PBT_CHECK(traits<T>::id(*r) == pushed - 1, "took item " << traits<T>::id(*r) << " instead of the only or newest, " << pushed - 1);
                }
                got(*r, "take");
            }
        }
        if (long_runs && s.draw(500) == 499) {
            for (u64 k = s.draw(5000); k > 0; k--) {
                d.push_back(pushed);
                push();
            }
        }
        for (u64 i = 0; i < n; i++) {
            switch (s.draw(4)) {
            case 0:
                d.push_back(pushed);
                push();
                break;
            case 1: {
                auto r = q.pop();
                PBT_CHECK(r.has_value() == !d.empty(), "pop without contention "
                                                           << (r ? "delivered from an empty queue" : "found nothing")
                                                           << ", model holds " << d.size());
                if (r) {
                    got(*r, "pop");
                    popped++;
                    PBT_CHECK(traits<T>::id(*r) == d.back(), "pop took item " << traits<T>::id(*r) << ", the newest is " << d.back());
                    d.pop_back();
                }
                break;
            }
            case 2: {
                auto r = q.steal();
                PBT_CHECK(r.has_value() == !d.empty(), "steal without contention "
                                                           << (r ? "delivered from an empty queue" : "found nothing")
                                                           << ", model holds " << d.size());
                if (r) {
                    got(*r, "steal");
                    stolen++;
                    PBT_CHECK(traits<T>::id(*r) == d.front(), "steal took item " << traits<T>::id(*r) << ", the oldest is " << d.front());
                    d.pop_front();
                }
                break;
            }
            default:
                for (u64 k = s.draw(6); k > 0; k--) {
                    d.push_back(pushed);
                    push();
                }
            }
            check_counts();
        }
    }
    void drain() {
        auto d = content();
        while (!d.empty()) {
            bool back = s.draw(2) == 0;
            auto r = back ? q.pop() : q.steal();
            PBT_CHECK(r, (back ? "pop" : "steal") << " found nothing, " << d.size() << " pushed items were never delivered");
            got(*r, back ? "pop" : "steal");
            (back ? popped : stolen)++;
            auto want = back ? d.back() : d.front();
            PBT_CHECK(traits<T>::id(*r) == want, (back ? "pop" : "steal") << " took item " << traits<T>::id(*r) << " instead of " << want);
            back ? d.pop_back() : d.pop_front();
        }
        PBT_CHECK(!q.pop(), "pop delivered from an empty queue");
        PBT_CHECK(!q.steal(), "steal delivered from an empty queue");
        check_counts();
    }

    void concurrent() {
        auto thieves = 1 + s.draw(4);
        auto w = s.draw(3);
        std::vector<std::vector<int>> plan;
        for (u64 t = 0; t < thieves; t++) {
            plan.emplace_back();
            for (u64 k = 1 + s.small(10); k > 0; k--) {
                plan.back().push_back(static_cast<int>(s.draw(6)));
            }
        }
        std::vector<int> ops;
        for (u64 k = 1 + s.small(24); k > 0; k--) {
            static constexpr int choose[3][6] = { { 0, 0, 0, 1, 1, 2 }, { 0, 0, 0, 2, 2, 1 }, { 0, 0, 1, 1, 1, 3 } };
            ops.push_back(choose[w][s.draw(6)]);
        }
        u64 late = s.draw(3); // thieves started after this many owner operations
        std::vector<std::thread> th;
        auto start = [&] {
            for (u64 t = 0; t < thieves; t++) {
                th.emplace_back([this, &plan, t] {
                    for (int op : plan[t]) {
                        if (op == 5) {
                            auto n = q.size();
                            bool e = q.empty();
                            quiet qq;
                            PBT_CHECK(n <= pushed, "size() is " << n << " after " << pushed << " pushes");
                            (void)e;
                        } else {
                            steal();
                        }
                    }
                });
            }
        };
        if (late == 0) {
            start();
        }
        u64 k = 0;
        for (int op : ops) {
            if (k++ == late && th.empty()) {
                start();
            }
            switch (op) {
            case 0:
                push();
                break;
            case 1:
                pop(false);
                break;
            case 2:
                for (int i = 0; i < 5; i++) {
                    push();
                }
                break;
            default:
                pop(false);
                pop(false);
            }
        }
        if (th.empty()) {
            start();
        }
        for (auto& t : th) {
            t.join();
        }
        quiet qq;
        check_counts();
    }

    void go() {
        for (auto k = s.draw(3); k > 0; k--) {
            push();
        }
        s.set_len(1 + s.draw(3));
        while (s.more()) {
            concurrent();
            if (s.chance(1, 3)) {
                sequential(s.small(8));
            }
        }
        drain();
        c.label("items", pushed);
        c.label("stolen", stolen);
        c.label("popped", popped);
        if (grown) {
            c.label("case: grew");
        }
        if (sched::stale_reads()) {
            c.label("case: stale reads");
        }
        c.label("scheduling points", sched::steps());
        c.label("preemptions", sched::preemptions());
        if (stolen > 0 && popped > 0 && sched::preemptions() > 1) {
            c.nontrivial();
        }
    }
};

void case_concurrent(pbt::ctx& c) {
    auto& s = c.src;
    auto o = sched::draw_options(s);
    auto kind = s.draw(4);
    std::int64_t cap = std::int64_t(2) << s.draw(4);
    sched::run(c, o, [&] {
        if (kind == 3) {
            run_queue<wide>(c, cap).go();
        } else if (kind == 2) {
            run_queue<u64>(c, cap).go();
        } else {
            run_queue<item*>(c, cap).go();
        }
    });
}

void case_sequential(pbt::ctx& c) {
    auto& s = c.src;
    std::int64_t cap = std::int64_t(2) << s.draw(11);
    bool def = s.chance(1, 8);
    run_queue<u64> r(c, def ? 1024 : cap);
    r.long_runs = true;
    s.set_len(2 + s.small(60));
    while (s.more()) {
        r.sequential(1 + s.small(40));
    }
    r.drain();
    c.label("items", r.pushed);
    if (r.grown) {
        c.label("case: grew");
    }
    if (r.popped > 2 && r.stolen > 2) {
        c.nontrivial();
    }
}

pbt::registrar r1({ "C14", "concurrent", case_concurrent, 600000, 30000000,
    "an owner thread and 1-4 thieves run generated operation lists on a queue of initial capacity 2-16 under a generated "
    "schedule (random preemption or priorities; half of the cases with weak-memory stale reads); every item delivered at "
    "most once and only if pushed, its payload visible to the taker, no data race; between concurrent phases the content is "
    "compared with a deque and finally drained; non-trivial: items stolen and popped and at least 2 preemptions" });
pbt::registrar r2({ "C14", "sequential", case_sequential, 300000, 6000000,
    "generated push/pop/steal sequences (rarely tens of thousands of items) by one thread compared with a deque (order, size, empty, capacity); non-trivial: "
    "more than 2 pops and steals delivered" });
} // namespace
