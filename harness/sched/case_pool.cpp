// C12: task trees on the thread pool under generated schedules.
#include "shim.hpp"

#include <co_ecs/thread_pool/parallel_for.hpp>
#include <co_ecs/thread_pool/thread_pool.hpp>

namespace {
using sched::quiet;
using u64 = std::uint64_t;
using co_ecs::task_t;
using co_ecs::thread_pool;

enum op_kind { SUBMIT, WAIT, YIELD, TOUCH };
struct op {
    op_kind kind;
    int node;
};
struct node {
    int parent{ -1 };
    int by{ -1 }; // submitted by the body of this node (-1: main)
    int depth{};
    bool big{};
    bool self{}; // its body uses its own handle
    bool detached{}; // a root nobody waits for
    std::vector<op> ops;
    std::vector<int> kids; // nodes whose parent is this one
};

struct world {
    pbt::ctx& c;
    pbt::source& s;
    std::vector<node> nodes; // nodes[0] is main
    std::size_t limit;
    std::size_t workers{};

    // run time
    std::vector<int> runs, finished, by_worker; // by_worker: id of the submitting worker, -1: not submitted
    std::vector<std::unique_ptr<std::atomic<task_t*>>> self;
    std::vector<u64> in, out; // plain memory written by the submitter / by the task
    std::vector<int> thread_of_worker;
    u64 waits{}, nested_waits{}, foreign{}, inside{}, reopened{}, left{};
    bool may_detach{};

    world(pbt::ctx& c, std::size_t limit) : c(c), s(c.src), limit(limit) {
    }

    bool ancestor(int a, int n) const { // a is an ancestor of n (by the parent relation)
        for (int p = nodes[n].parent; p != -1; p = nodes[p].parent) {
            if (p == a) {
                return true;
            }
        }
        return false;
    }

    /// body of `n`: `known` are nodes whose handle it got from its submitter
    void gen(int n, std::vector<int> known) {
        std::vector<int> open; // roots submitted here and not yet waited for
        std::vector<int> mine; // children with an ancestor as parent, submitted here
        auto depth = nodes[n].depth;
        auto len = n == 0 ? 2 + s.small(10) : s.small(depth > 4 ? 2 : 5);
        for (u64 k = 0; k < len; k++) {
            s.mark();
            switch (s.weighted({ 8, 3, 2, 1 })) {
            case 0: {
                if (nodes.size() >= limit) {
                    break;
                }
                // parents that are known to be unfinished, or roots submitted here and not waited for yet
                std::vector<int> ps{ -1 };
                for (int o : open) {
                    ps.push_back(o);
                    ps.push_back(o);
                }
                if (n != 0) {
                    ps.push_back(n);
                    ps.push_back(n);
                    for (int a : known) {
                        if (ancestor(a, n)) {
                            ps.push_back(a);
                            ps.push_back(a);
                        }
                    }
                }
                // tasks inside a tree that is not finished, which may be finished themselves
                for (int m : mine) {
                    int top = m;
                    while (nodes[top].parent != -1 && top != n && !ancestor(top, n)) {
                        top = nodes[top].parent;
                    }
                    if (top == n ? n != 0 : ancestor(top, n) || std::find(open.begin(), open.end(), top) != open.end()) {
                        ps.push_back(m);
                    }
                }
                int parent = ps[s.draw(ps.size())];
                int id = static_cast<int>(nodes.size());
                node x;
                x.parent = parent;
                x.by = n;
                x.depth = depth + 1;
                x.big = s.draw(4) == 3;
                x.detached = may_detach && parent == -1 && s.draw(3) == 2;
                nodes.push_back(x);
                nodes[n].ops.push_back({ SUBMIT, id });
                if (parent == -1) {
                    if (!x.detached) {
                        open.push_back(id);
                    }
                } else {
                    nodes[parent].kids.push_back(id);
                    mine.push_back(id);
                }
                nodes[n].self |= parent == n && n != 0;
                auto k2 = known;
                if (nodes[n].self) {
                    k2.push_back(n);
                }
                for (int o : open) {
                    k2.push_back(o);
                }
                gen(id, k2);
                break;
            }
            case 1:
                if (!open.empty()) {
                    auto i = s.draw(open.size());
                    nodes[n].ops.push_back({ WAIT, open[i] });
                    open.erase(open.begin() + static_cast<std::ptrdiff_t>(i));
                } else if (!mine.empty()) {
                    // a child may be waited for on its own
                    nodes[n].ops.push_back({ WAIT, mine[s.draw(mine.size())] });
                }
                break;
            case 2:
                nodes[n].ops.push_back({ TOUCH, 0 });
                break;
            default:
                nodes[n].ops.push_back({ YIELD, 0 });
            }
        }
        while (!open.empty()) {
            nodes[n].ops.push_back({ WAIT, open.back() });
            open.pop_back();
        }
    }

    void check_tree(int n, int waiter) {
        {
            quiet q;
            PBT_CHECK(runs[n] == 1 && finished[n] == 1,
                "wait(task " << waiter << ") returned while task " << n << (n == waiter ? "" : " of its tree") << " has "
                             << (runs[n] == 0 ? "not run" : finished[n] ? "run " + std::to_string(runs[n]) + " times" : "not finished"));
        }
        u64 v = out[n]; // race-checked: what the task wrote must be visible here
        {
            quiet q;
            PBT_CHECK(v == n * 31u + 7, "what task " << n << " wrote is not visible after wait(task " << waiter << "): " << v);
        }
        for (int k : nodes[n].kids) {
            if (by_worker[k] != -1) { // the waiter may submit more to the tree later
                check_tree(k, waiter);
            }
        }
    }

    using handles = std::vector<std::pair<int, task_t*>>;

    static task_t* find(const handles& h, int n) {
        for (auto& [i, p] : h) {
            if (i == n) {
                return p;
            }
        }
        return nullptr;
    }

    void run_ops(int n, handles h) {
        auto& pool = thread_pool::get();
        auto wid = thread_pool::current_worker().id();
        for (auto& o : nodes[n].ops) {
            switch (o.kind) {
            case SUBMIT: {
                auto& x = nodes[o.node];
                in[o.node] = o.node * 17u + 5;
                task_t* parent = x.parent < 0 ? nullptr : find(h, x.parent);
                {
                    quiet q;
                    PBT_NOTE(c, "T" << sched::self() - 1 << " task " << n << " submits " << o.node << " parent " << x.parent
                                    << (x.detached ? ", never waited for" : ""));
                    by_worker[o.node] = static_cast<int>(wid);
                    inside += x.parent > 0 && nodes[x.parent].parent > 0;
                    reopened += x.parent > 0 && nodes[x.parent].parent > 0 && finished[x.parent];
                }
                task_t* t;
                if (x.big) {
                    std::array<u64, 12> fat{};
                    fat[3] = static_cast<u64>(o.node);
                    t = pool.submit([this, fat, h] { body(static_cast<int>(fat[3]), h); }, parent);
                } else if (parent) {
                    t = pool.submit([this, k = o.node, h] { body(k, h); }, parent);
                } else {
                    t = pool.submit([this, k = o.node, h] { body(k, h); });
                }
                if (x.self) {
                    self[o.node]->store(t, std::memory_order_release);
                }
                h.emplace_back(o.node, t);
                break;
            }
            case WAIT: {
                auto* t = find(h, o.node);
                pool.wait(t);
                {
                    quiet q;
                    waits++;
                    nested_waits += n != 0;
                    PBT_NOTE(c, "T" << sched::self() - 1 << " task " << n << " has waited for " << o.node);
                }
                check_tree(o.node, o.node);
                break;
            }
            case YIELD:
                std::this_thread::yield();
                break;
            case TOUCH: {
                auto id = thread_pool::current_worker().id();
                quiet q;
                check_worker(id, n);
            }
            }
        }
    }
    void check_worker(std::size_t id, int n) {
        PBT_CHECK(id < workers, "task " << n << " runs on worker " << id << " of " << workers);
        int t = static_cast<int>(sched::self());
        if (thread_of_worker[id] == 0) {
            thread_of_worker[id] = t;
        }
        PBT_CHECK(thread_of_worker[id] == t, "worker " << id << " is seen from two threads");
        PBT_CHECK((id == 0) == (t == 1), "worker " << id << " runs on thread T" << t - 1);
        foreign += id != 0;
    }
    void body(int n, handles h) {
        auto wid = thread_pool::current_worker().id();
        {
            quiet q;
            PBT_NOTE(c, "T" << sched::self() - 1 << " runs task " << n);
            PBT_CHECK(runs[n] == 0, "task " << n << " runs a second time");
            runs[n]++;
            check_worker(wid, n);
        }
        u64 v = in[n];
        {
            quiet q;
            PBT_CHECK(v == n * 17u + 5, "task " << n << " does not see what its submitter wrote");
        }
        if (nodes[n].self) {
            task_t* me;
            while ((me = self[n]->load(std::memory_order_acquire)) == nullptr) {
                std::this_thread::yield();
            }
            h.emplace_back(n, me);
        }
        run_ops(n, std::move(h));
        out[n] = n * 31u + 7;
        quiet q;
        finished[n]++;
    }

    void prepare() {
        nodes.assign(1, node{});
        may_detach = s.draw(2) == 1;
        gen(0, {});
        by_worker.assign(nodes.size(), -1);
        runs.assign(nodes.size(), 0);
        finished.assign(nodes.size(), 0);
        in.assign(nodes.size(), 0);
        out.assign(nodes.size(), 0);
        self.resize(nodes.size());
    }
    void start() { // on a scheduled thread: atomics live there
        for (auto& p : self) {
            p = std::make_unique<std::atomic<task_t*>>(nullptr);
        }
    }
    void all_ran() {
        for (std::size_t i = 1; i < nodes.size(); i++) {
            auto root = i;
            while (nodes[root].parent > 0) {
                root = static_cast<std::size_t>(nodes[root].parent);
            }
            // what the main thread submits and does not wait for may still be queued when the pool is destroyed; the other
            // workers empty their queues before they end
            if (by_worker[i] > 0 || (by_worker[i] == 0 && !nodes[root].detached)) {
                PBT_CHECK(runs[i] == 1 && finished[i] == 1, "task " << i << " ran " << runs[i] << " times");
                u64 v = out[i];
                PBT_CHECK(v == i * 31u + 7, "what task " << i << " wrote is not visible after the pool has ended");
                left += nodes[root].detached;
            } else {
                PBT_CHECK(runs[i] <= 1 && runs[i] == finished[i], "task " << i << " ran " << runs[i] << " times");
            }
        }
    }
};

void case_tree(pbt::ctx& c) {
    auto& s = c.src;
    auto o = sched::draw_options(s);
    static constexpr std::size_t ws[] = { 2, 1, 3, 4, 6 };
    auto pools = 1 + (s.draw(6) == 5);
    auto limit = 8 + s.small(100);
    std::vector<std::unique_ptr<world>> w;
    for (u64 i = 0; i < pools; i++) {
        w.push_back(std::make_unique<world>(c, limit));
        w.back()->workers = ws[s.draw(5)];
        w.back()->prepare();
        w.back()->thread_of_worker.assign(w.back()->workers, 0);
        o.budget += w.back()->nodes.size() * 1500;
    }
    u64 ended = 0;
    sched::run(c, o, [&] {
        for (auto& x : w) {
            auto pool = std::make_unique<thread_pool>(x->workers);
            {
                quiet q;
                PBT_CHECK(pool->num_workers() == x->workers, "pool of " << x->workers << " reports " << pool->num_workers());
                PBT_NOTE(c, "pool of " << x->workers << " workers");
            }
            x->start();
            x->run_ops(0, {});
            pool.reset();
            x->all_ran();
            ended++;
        }
    });
    u64 foreign = 0, nodes = 0, nested = 0;
    for (auto& x : w) {
        foreign += x->foreign;
        nodes += x->nodes.size() - 1;
        nested += x->nested_waits;
        c.label("tasks with a parent inside a tree", x->inside);
        c.label("tasks with a parent inside a tree that had finished its own work", x->reopened);
        c.label("tasks nobody waits for that have to run", x->left);
    }
    c.label("tasks", nodes);
    c.label("nested waits", nested);
    c.label("scheduling points", sched::steps());
    c.label("preemptions", sched::preemptions());
    if (sched::stale_reads()) {
        c.label("case: stale reads");
    }
    if (foreign > 0 && nodes >= 3 && sched::preemptions() > 1) {
        c.nontrivial();
    }
}

/// more tasks in flight than a thread's ring of task slots, or than a 16-bit counter
void case_many(pbt::ctx& c) {
    auto& s = c.src;
    auto o = sched::draw_options(s);
    o.weak = false;
    o.quantum_class = 0;
    auto workers = 1 + s.draw(3);
    u64 n;
    switch (s.weighted({ 4, 6, 3, 1 })) {
    case 0:
        n = 1 + s.draw(3000);
        break;
    case 1:
        n = 4000 + s.draw(400);
        break;
    case 2:
        n = 4096 + s.draw(9000);
        break;
    default:
        n = 65500 + s.draw(600);
    }
    auto nested = s.draw(3) == 2; // the tasks are submitted from inside a task
    auto how = s.draw(3);         // all children of the first / of a root that outlives them / each a root
    if (how == 2) {
        n = std::min<u64>(n, 12000);
    }
    auto late = s.draw(4); // the first task keeps waiting for a nested tree
    o.budget = 200000 + n * 400;
    std::vector<u64> out(n + 1);
    std::vector<int> runs(n + 1);
    u64 others = 0;
    sched::run(c, o, [&] {
        thread_pool pool(workers);
        auto many = [&] {
            auto& tp = thread_pool::get();
            std::vector<task_t*> roots;
            task_t* parent = nullptr;
            for (u64 i = 0; i < n; i++) {
                auto* t = tp.submit(
                    [&, i] {
                        {
                            quiet q;
                            PBT_CHECK(runs[i] == 0, "task " << i << " of " << n << " runs a second time");
                            runs[i]++;
                            others += sched::self() != 1;
                        }
                        if (i == 0 && late == 3) {
                            auto* sub = thread_pool::get().submit([&] { out[n] = 99; });
                            thread_pool::get().wait(sub);
                        }
                        out[i] = i + 1;
                    },
                    how == 2 ? nullptr : parent);
                if (parent == nullptr) {
                    parent = t;
                }
                if (how == 2) {
                    roots.push_back(t);
                    if (roots.size() == 2000) {
                        // handles are only used while their slot cannot have been given away
                        for (auto* r : roots) {
                            tp.wait(r);
                        }
                        roots.clear();
                    }
                }
            }
            if (how != 2) {
                tp.wait(parent);
            } else {
                for (auto* r : roots) {
                    tp.wait(r);
                }
            }
            for (u64 i = 0; i < n; i++) {
                u64 v = out[i];
                quiet q;
                PBT_CHECK(runs[i] == 1 && v == i + 1, "after wait, task " << i << " of " << n << " has run " << runs[i] << " times");
            }
        };
        if (nested) {
            pool.wait(pool.submit(many));
        } else {
            many();
        }
    });
    c.label("tasks", n);
    if (n > 4096) {
        c.label("case: more than 4096 tasks");
    }
    if (n > 65535) {
        c.label("case: more than 65535 children");
    }
    if (n > 4096) {
        c.nontrivial();
    }
}

pbt::registrar r1({ "C12", "tree", case_tree, 60000, 6000000,
    "generated task trees (children of running ancestors, children added to a root by its submitter, roots and waits inside "
    "tasks) on pools of 1-6 workers under generated schedules, half with weak-memory stale reads; every task runs once on a "
    "worker of the pool, wait returns only after the whole tree has finished and its plain writes are visible (happens-before "
    "race check), pools are destroyed (tasks of workers that nobody waits for have run by then) and re-created; hangs and deadlocks are detected; non-trivial: at least 3 tasks, one of "
    "them on another thread, 2 preemptions" });
pbt::registrar r2({ "C12", "many", case_many, 400, 20000,
    "up to 66100 tasks in flight from one thread (children of one root, or roots), on 1-3 workers, also submitted from inside "
    "a task; each runs once and is finished and visible after wait; non-trivial: more than 4096 tasks" });
} // namespace
