#include "core.hpp"

#include <atomic>
#include <deque>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sched {

namespace {

struct ts_t {
    u32 v;
};

/// how far a thread (or message) has advanced: newest known message per location, newest known clock per thread
struct view_t {
    std::vector<ts_t> loc;
    u32 clk[MAX_THREADS]{};

    u32 at(u32 id) const {
        return id < loc.size() ? loc[id].v : 0;
    }
    void set(u32 id, u32 ts) {
        if (id >= loc.size()) {
            loc.resize(id + 16, ts_t{ 0 });
        }
        if (loc[id].v < ts) {
            loc[id].v = ts;
        }
    }
    void join(const view_t& o) {
        if (o.loc.size() > loc.size()) {
            loc.resize(o.loc.size(), ts_t{ 0 });
        }
        for (std::size_t i = 0; i < o.loc.size(); i++) {
            if (loc[i].v < o.loc[i].v) {
                loc[i].v = o.loc[i].v;
            }
        }
        for (unsigned i = 0; i < MAX_THREADS; i++) {
            if (clk[i] < o.clk[i]) {
                clk[i] = o.clk[i];
            }
        }
    }
};

struct msg_t {
    u32 ts{};
    unsigned char raw[16]{};
    u32 tid{ MAX_THREADS };       // writer
    std::unique_ptr<view_t> rest; // what a read-modify-write carries on from its own thread only, v when it is a store
    view_t v;
};

struct loc_t {
    std::deque<msg_t> hist;
    u32 next_ts{ 1 };
};

enum st : int { RUNNABLE, BLOCKED, TIMED, DONE };

struct thr {
    u32 id{};
    st state{ RUNNABLE };
    const void* on{};
    bool timed_out{};
    bool notified{};
    int rt{};
    int mute{};
    u64 streak{};
    u64 prio{};
    u32 stale_streak{};
    view_t cur, acq, rel, fin;
    std::function<void()> fn;
    pthread_t os{};
    std::atomic<int> go{ 0 };
};

constexpr std::size_t STACK = 16u << 20;
constexpr unsigned KEEP = 6; // messages kept per location

struct global {
    bool on{};
    u32 epoch{};
    pbt::ctx* c{};
    options o;
    std::vector<std::unique_ptr<thr>> t;
    std::vector<std::unique_ptr<loc_t>> locs;
    std::vector<ts_t> free_locs;
    view_t sc;
    std::vector<std::unique_ptr<view_t>> views; // of blocking objects and plain addresses
    struct addr_view {
        const void* p;
        view_t* v;
    };
    std::vector<addr_view> addrs; // open addressing
    std::size_t n_addr{};
    thr* cur{};
    u64 steps{}, preempt{}, stale{}, sw{};
    std::int64_t quantum{};
    u64 low{};
    u64 points[4]{};
    u64 rng{};
    u64 rr{};
    std::atomic<int> finished{ 0 };
    char* stacks{};
} g;

thread_local thr* me = nullptr;

void futex_wait(std::atomic<int>& a, int v) {
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void futex_wake(std::atomic<int>& a) {
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void wait_go(thr* t) {
    while (t->go.load(std::memory_order_acquire) == 0) {
        futex_wait(t->go, 0);
    }
    t->go.store(0, std::memory_order_relaxed);
}
void give(thr* t) {
    g.cur = t;
    t->go.store(1, std::memory_order_release);
    futex_wake(t->go);
}

struct rt_guard {
    rt_guard() {
        me->rt++;
    }
    ~rt_guard() {
        me->rt--;
    }
};

u64 mix(u64& x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void tick() {
    me->cur.clk[me->id]++;
}

bool fair() {
    return g.steps > g.o.budget;
}

std::string states() {
    std::ostringstream os;
    for (auto& t : g.t) {
        os << " T" << t->id << "="
           << (t->state == RUNNABLE  ? "runnable"
                  : t->state == DONE ? "done"
                  : t->state == TIMED ? "waiting(timeout)"
                                      : "blocked");
    }
    return os.str();
}

void hang_check() {
    if (g.steps > g.o.budget * 12 + 400000) {
        pbt::fail_now("no progress: the operation did not finish within " + std::to_string(g.steps)
                      + " scheduling points although the schedule has been fair since point "
                      + std::to_string(g.o.budget) + " (hang or livelock);" + states());
    }
}

void draw_quantum() {
    static constexpr int table[3][6] = { { 2000, 200, 40, 12, 4, 1 }, { 2000, 40, 10, 4, 1, 0 }, { 500, 12, 3, 1, 0, 0 } };
    g.quantum = table[g.o.quantum_class % 3][g.c->src.draw(6)];
}

thr* pick(bool self_ok) {
    thr* run[MAX_THREADS];
    thr* timed[MAX_THREADS];
    unsigned nr = 0, nt = 0;
    for (std::size_t k = 0; k < g.t.size(); k++) {
        auto* t = g.t[(me->id + 1 + k) % g.t.size()].get();
        if (t == me) {
            continue;
        }
        if (t->state == RUNNABLE) {
            run[nr++] = t;
        } else if (t->state == TIMED) {
            timed[nt++] = t;
        }
    }
    auto wake_timed = [&](thr* t) {
        t->timed_out = true;
        t->state = RUNNABLE;
        return t;
    };
    if (fair()) {
        hang_check();
        g.rr++;
        if (nt > 0 && (g.rr % 3 == 0 || nr == 0)) {
            if (nr > 0 || !self_ok) {
                return wake_timed(timed[g.rr / 3 % nt]);
            }
        }
        if (nr > 0) {
            return run[0];
        }
        return self_ok ? me : nullptr;
    }
    if (nr == 0) {
        if (self_ok && (nt == 0 || g.c->src.draw(4) != 3)) {
            return me;
        }
        if (nt > 0) {
            // no thread can run: the clock advances to the next timeout
            return wake_timed(timed[nt == 1 ? 0 : g.c->src.draw(nt)]);
        }
        return nullptr;
    }
    if (nt > 0 && g.c->src.draw(16) == 15) {
        return wake_timed(timed[nt == 1 ? 0 : g.c->src.draw(nt)]);
    }
    if (g.o.pct) {
        thr* best = self_ok ? me : run[0];
        for (unsigned i = 0; i < nr; i++) {
            if (run[i]->prio > best->prio) {
                best = run[i];
            }
        }
        return best;
    }
    if (self_ok) {
        auto k = g.c->src.draw(nr + 1);
        return k == 0 ? me : run[k - 1];
    }
    return nr == 1 ? run[0] : run[g.c->src.draw(nr)];
}

void switch_to(thr* t, bool voluntary) {
    if (t == me) {
        return;
    }
    g.sw++;
    if (!voluntary) {
        g.preempt++;
    }
    auto* m = me;
    m->streak = 0;
    if (!g.o.pct && !fair()) {
        draw_quantum();
    } else {
        g.quantum = 20;
    }
    give(t);
    wait_go(m);
}

[[noreturn]] void deadlock() {
    pbt::fail_now("deadlock: no thread can run;" + states());
}

void yield_point(bool force) {
    g.steps++;
    me->streak++;
    if (fair()) {
        if (force || --g.quantum <= 0) {
            g.quantum = 20;
            switch_to(pick(true), false);
        }
        return;
    }
    if (g.o.pct) {
        bool change = false;
        for (auto p : g.points) {
            change = change || p == g.steps;
        }
        if (change || force || me->streak > 400) {
            me->prio = --g.low;
            me->streak = 0;
        }
        auto* t = pick(true);
        switch_to(t, false);
        return;
    }
    if (force || me->streak > 3000) {
        auto* t = pick(false);
        if (t == nullptr) {
            me->streak = 0;
            return;
        }
        switch_to(t, false);
        return;
    }
    if (g.quantum-- > 0) {
        return;
    }
    draw_quantum();
    switch_to(pick(true), false);
}

/// wait until another thread makes this one runnable again
void block(const void* on, bool timed) {
    me->on = on;
    me->state = timed ? TIMED : BLOCKED;
    me->timed_out = false;
    g.steps++;
    auto* t = pick(false);
    if (t == nullptr) {
        if (timed) {
            me->state = RUNNABLE;
            me->timed_out = true;
            me->on = nullptr;
            if (fair()) {
                hang_check();
            }
            return;
        }
        deadlock();
    }
    switch_to(t, true);
    me->on = nullptr;
}

void wake_all(const void* on) {
    for (auto& t : g.t) {
        if (t->on == on && (t->state == BLOCKED || t->state == TIMED)) {
            t->state = RUNNABLE;
            t->timed_out = false;
            t->notified = true;
        }
    }
}

loc_t& loc_of(const void* obj, std::size_t size, loc_ref& l) {
    if (l.epoch == g.epoch && l.id != 0) {
        return *g.locs[l.id];
    }
    if (!g.free_locs.empty()) {
        l.id = g.free_locs.back().v;
        g.free_locs.pop_back();
    } else {
        if (g.locs.empty()) {
            g.locs.emplace_back();
        }
        l.id = static_cast<u32>(g.locs.size());
        g.locs.push_back(std::make_unique<loc_t>());
    }
    l.epoch = g.epoch;
    auto& L = *g.locs[l.id];
    L.hist.clear();
    auto& m = L.hist.emplace_back();
    m.ts = L.next_ts++;
    std::memcpy(m.raw, obj, size < 16 ? size : 16);
    return L;
}

bool is_acq(int o) {
    return o == acquire || o == consume || o == acq_rel || o == seq_cst;
}
bool is_rel(int o) {
    return o == release || o == acq_rel || o == seq_cst;
}

void read_msg(u32 id, const msg_t& m, int o) {
    if (g.o.weak) {
        me->cur.set(id, m.ts);
    }
    if (is_acq(o)) {
        me->cur.join(m.v);
    } else {
        me->acq.join(m.v);
    }
    if (o == seq_cst && g.o.weak) {
        g.sc.set(id, m.ts);
    }
}

const msg_t& choose(u32 id, loc_t& L, int o) {
    if (!g.o.weak || L.hist.size() == 1 || fair()) {
        return L.hist.back();
    }
    u32 from = me->cur.at(id);
    if (o == seq_cst) {
        from = std::max(from, g.sc.at(id));
    }
    std::size_t lo = L.hist.size() - 1;
    while (lo > 0 && L.hist[lo - 1].ts >= from) {
        lo--;
    }
    std::size_t n = L.hist.size() - lo;
    if (n == 1) {
        return L.hist.back();
    }
    if (me->stale_streak >= 4) {
        me->stale_streak = 0;
        return L.hist.back();
    }
    if (g.c->src.draw(g.o.stale_den) < g.o.stale_den - g.o.stale_num) {
        me->stale_streak = 0;
        return L.hist.back();
    }
    me->stale_streak++;
    g.stale++;
    auto k = n == 2 ? 0 : g.c->src.draw(n - 1);
    return L.hist[L.hist.size() - 2 - k];
}

void push_msg(u32 id, loc_t& L, std::size_t size, const void* in, int o, const view_t* chain) {
    msg_t m;
    m.ts = L.next_ts++;
    std::memcpy(m.raw, in, size < 16 ? size : 16);
    if (g.o.weak) {
        me->cur.set(id, m.ts);
    }
    m.tid = me->id;
    m.v = is_rel(o) ? me->cur : me->rel;
    // later stores of the releasing thread belong to the release sequence (C++11 to C++17; so do all processors order it)
    for (auto h = L.hist.rbegin(); h != L.hist.rend(); ++h) {
        if (h->tid == me->id) {
            m.v.join(h->rest ? *h->rest : h->v);
            break;
        }
        if (!h->rest) {
            break;
        }
    }
    if (chain != nullptr) {
        m.rest = std::make_unique<view_t>(m.v);
    }
    if (g.o.weak) {
        m.v.set(id, m.ts);
        if (o == seq_cst) {
            g.sc.set(id, m.ts);
        }
    }
    if (chain != nullptr) {
        m.v.join(*chain);
    }
    L.hist.push_back(std::move(m));
    while (L.hist.size() > (g.o.weak ? KEEP : 1)) {
        L.hist.pop_front();
    }
    tick();
}

} // namespace

bool active() noexcept {
    return me != nullptr;
}
bool in_runtime() noexcept {
    return me == nullptr || me->rt > 0 || me->mute > 0;
}
u64 steps() noexcept {
    return g.steps;
}
u64 preemptions() noexcept {
    return g.preempt;
}
u64 stale_reads() noexcept {
    return g.stale;
}
u64 switches() noexcept {
    return g.sw;
}
u32 self() noexcept {
    return me ? me->id + 1 : 0;
}
u32 clock_of(u32 tid) noexcept {
    return me->cur.clk[tid];
}
u32 own_clock() noexcept {
    return me->cur.clk[me->id];
}

quiet::quiet() noexcept {
    if (me) {
        me->mute++;
    }
}
quiet::~quiet() {
    if (me) {
        me->mute--;
    }
}

void point() noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
}

void a_load(const void* obj, std::size_t size, loc_ref& l, int o, void* out) noexcept {
    if (me == nullptr) {
        std::memcpy(out, obj, size);
        return;
    }
    {
        rt_guard r;
        yield_point(false);
    }
    mem_access(obj, size, false, true, __builtin_return_address(0));
    rt_guard r;
    auto& L = loc_of(obj, size, l);
    if (size > 16) {
        std::memcpy(out, obj, size);
        read_msg(l.id, L.hist.back(), o);
        return;
    }
    auto& m = choose(l.id, L, o);
    std::memcpy(out, m.raw, size);
    read_msg(l.id, m, o);
}

void a_store(void* obj, std::size_t size, loc_ref& l, int o, const void* in) noexcept {
    if (me == nullptr) {
        std::memcpy(obj, in, size);
        return;
    }
    {
        rt_guard r;
        yield_point(false);
    }
    mem_access(obj, size, true, true, __builtin_return_address(0));
    rt_guard r;
    auto& L = loc_of(obj, size, l);
    std::memcpy(obj, in, size);
    push_msg(l.id, L, size, in, o, nullptr);
    wake_all(obj);
}

void a_rmw_begin(void* obj, std::size_t size, loc_ref& l) noexcept {
    if (me == nullptr) {
        return;
    }
    {
        rt_guard r;
        yield_point(false);
    }
    mem_access(obj, size, true, true, __builtin_return_address(0));
    rt_guard r;
    loc_of(obj, size, l);
}

void a_rmw_commit(void* obj, std::size_t size, loc_ref& l, int o, const void* in) noexcept {
    if (me == nullptr) {
        std::memcpy(obj, in, size);
        return;
    }
    rt_guard r;
    auto& L = loc_of(obj, size, l);
    std::memcpy(obj, in, size);
    view_t chain = L.hist.back().v;
    read_msg(l.id, L.hist.back(), o);
    push_msg(l.id, L, size, in, o, &chain);
    wake_all(obj);
}

bool a_cas(void* obj, std::size_t size, loc_ref& l, void* expected, const void* desired, int so, int fo, bool weak) noexcept {
    if (me == nullptr) {
        if (std::memcmp(obj, expected, size) == 0) {
            std::memcpy(obj, desired, size);
            return true;
        }
        std::memcpy(expected, obj, size);
        return false;
    }
    {
        rt_guard r;
        yield_point(false);
    }
    mem_access(obj, size, true, true, __builtin_return_address(0));
    rt_guard r;
    auto& L = loc_of(obj, size, l);
    bool newest_equal = std::memcmp(obj, expected, size) == 0;
    if (size <= 16) {
        auto& m = choose(l.id, L, fo);
        if (&m != &L.hist.back() && std::memcmp(m.raw, expected, size) != 0) {
            std::memcpy(expected, m.raw, size);
            read_msg(l.id, m, fo);
            return false;
        }
    }
    if (newest_equal && weak && !fair() && g.c->src.draw(16) == 15) {
        read_msg(l.id, L.hist.back(), fo); // spurious failure
        return false;
    }
    if (!newest_equal) {
        std::memcpy(expected, obj, size);
        read_msg(l.id, L.hist.back(), fo);
        return false;
    }
    view_t chain = L.hist.back().v;
    std::memcpy(obj, desired, size);
    read_msg(l.id, L.hist.back(), so);
    push_msg(l.id, L, size, desired, so, &chain);
    wake_all(obj);
    return true;
}

void a_destroy(loc_ref& l) noexcept {
    if (me == nullptr || l.id == 0 || l.epoch != g.epoch) {
        return;
    }
    rt_guard r;
    g.free_locs.push_back(ts_t{ l.id });
    g.locs[l.id]->hist.clear();
    l.id = 0;
}

void a_wait(const void* obj, std::size_t size, loc_ref& l, const void* old, int o) noexcept {
    if (me == nullptr) {
        return;
    }
    unsigned char b[64];
    while (true) {
        a_load(obj, size, l, o, b);
        if (std::memcmp(b, old, size) != 0) {
            return;
        }
        rt_guard r;
        if (std::memcmp(obj, old, size) == 0) {
            block(obj, false);
        }
    }
}
void a_notify(const void* obj) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    wake_all(obj);
}

void fence(int o) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    if (is_acq(o)) {
        me->cur.join(me->acq);
    }
    if (o == seq_cst) {
        me->cur.join(g.sc);
        g.sc = me->cur;
    }
    if (is_rel(o)) {
        me->rel = me->cur;
        tick();
    }
}

namespace {
view_t& addr_view(const void* p) {
    if (g.addrs.size() < 64 || g.n_addr * 2 > g.addrs.size()) {
        std::vector<global::addr_view> old = std::move(g.addrs);
        g.addrs.assign(std::max<std::size_t>(64, old.size() * 2), { nullptr, nullptr });
        for (auto& a : old) {
            if (a.p != nullptr) {
                auto h = (reinterpret_cast<u64>(a.p) >> 2) * 0x9e3779b97f4a7c15ull >> 20;
                while (g.addrs[h % g.addrs.size()].p != nullptr) {
                    h++;
                }
                g.addrs[h % g.addrs.size()] = a;
            }
        }
    }
    auto h = (reinterpret_cast<u64>(p) >> 2) * 0x9e3779b97f4a7c15ull >> 20;
    while (true) {
        auto& a = g.addrs[h % g.addrs.size()];
        if (a.p == p) {
            return *a.v;
        }
        if (a.p == nullptr) {
            g.views.push_back(std::make_unique<view_t>());
            a.p = p;
            a.v = g.views.back().get();
            g.n_addr++;
            return *a.v;
        }
        h++;
    }
}
view_t& view_of(sync_state& s) {
    if (s.epoch != g.epoch || s.view == nullptr) {
        g.views.push_back(std::make_unique<view_t>());
        s.view = g.views.back().get();
        s.epoch = g.epoch;
    }
    return *static_cast<view_t*>(s.view);
}
void sync_acquire(sync_state& s) {
    me->cur.join(view_of(s));
}
void sync_release(sync_state& s) {
    view_of(s).join(me->cur);
    tick();
}
} // namespace

void addr_sync(const void* p, std::size_t n, int o, bool is_store, bool is_rmw, const void* pc) noexcept {
    if (me == nullptr) {
        return;
    }
    {
        rt_guard r;
        yield_point(false);
    }
    mem_access(p, n, is_store, true, pc);
    rt_guard r;
    auto& v = addr_view(p);
    if ((!is_store || is_rmw) && is_acq(o)) {
        me->cur.join(v);
    }
    if (is_store && is_rel(o)) {
        v.join(me->cur);
        tick();
    }
}

void s_destroy(sync_state& s) noexcept {
    s.view = nullptr;
    s.epoch = 0;
}

// mutex: data[0] owner thread id + 1, data[1] recursion depth
void m_lock(sync_state& s, bool recursive) noexcept {
    mem_access(&s, sizeof s, false, true, __builtin_return_address(0));
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    if (s.data[0] == me->id + 1u) {
        if (recursive) {
            s.data[1]++;
            return;
        }
        pbt::fail_now("deadlock: a thread locks a mutex it already owns");
    }
    while (s.data[0] != 0) {
        block(&s, false);
    }
    s.data[0] = me->id + 1u;
    s.data[1] = 1;
    sync_acquire(s);
}
bool m_try_lock(sync_state& s, bool recursive) noexcept {
    mem_access(&s, sizeof s, false, true, __builtin_return_address(0));
    if (me == nullptr) {
        return true;
    }
    rt_guard r;
    yield_point(false);
    if (s.data[0] != 0) {
        if (recursive && s.data[0] == me->id + 1u) {
            s.data[1]++;
            return true;
        }
        return false;
    }
    s.data[0] = me->id + 1u;
    s.data[1] = 1;
    sync_acquire(s);
    return true;
}
bool m_try_lock_timed(sync_state& s, bool recursive) noexcept {
    if (m_try_lock(s, recursive)) {
        return true;
    }
    rt_guard r;
    block(&s, true);
    return m_try_lock(s, recursive);
}
void m_unlock(sync_state& s, bool) noexcept {
    mem_access(&s, sizeof s, false, true, __builtin_return_address(0));
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    if (s.data[0] != me->id + 1u) {
        pbt::fail_now("a mutex is unlocked by a thread that does not own it");
    }
    if (--s.data[1] > 0) {
        return;
    }
    s.data[0] = 0;
    sync_release(s);
    wake_all(&s);
}

// shared mutex: data[0] writer + 1, data[1] number of readers
void sm_lock_shared(sync_state& s) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    while (s.data[0] != 0) {
        block(&s, false);
    }
    s.data[1]++;
    sync_acquire(s);
}
bool sm_try_lock_shared(sync_state& s) noexcept {
    if (me == nullptr) {
        return true;
    }
    rt_guard r;
    yield_point(false);
    if (s.data[0] != 0) {
        return false;
    }
    s.data[1]++;
    sync_acquire(s);
    return true;
}
void sm_unlock_shared(sync_state& s) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    s.data[1]--;
    sync_release(s);
    wake_all(&s);
}
void sm_lock(sync_state& s) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    while (s.data[0] != 0 || s.data[1] != 0) {
        block(&s, false);
    }
    s.data[0] = me->id + 1u;
    sync_acquire(s);
}
bool sm_try_lock(sync_state& s) noexcept {
    if (me == nullptr) {
        return true;
    }
    rt_guard r;
    yield_point(false);
    if (s.data[0] != 0 || s.data[1] != 0) {
        return false;
    }
    s.data[0] = me->id + 1u;
    sync_acquire(s);
    return true;
}
void sm_unlock(sync_state& s) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    s.data[0] = 0;
    sync_release(s);
    wake_all(&s);
}

void sem_init(sync_state& s, std::int64_t n) noexcept {
    s.data[0] = static_cast<u64>(n);
}
void sem_release(sync_state& s, std::int64_t n) noexcept {
    mem_access(&s, sizeof s, false, true, __builtin_return_address(0));
    if (me == nullptr) {
        s.data[0] += static_cast<u64>(n);
        return;
    }
    rt_guard r;
    yield_point(false);
    s.data[0] += static_cast<u64>(n);
    sync_release(s);
    wake_all(&s);
}
void sem_acquire(sync_state& s) noexcept {
    mem_access(&s, sizeof s, false, true, __builtin_return_address(0));
    if (me == nullptr) {
        s.data[0]--;
        return;
    }
    rt_guard r;
    yield_point(false);
    while (s.data[0] == 0) {
        block(&s, false);
    }
    s.data[0]--;
    sync_acquire(s);
}
bool sem_try_acquire(sync_state& s) noexcept {
    mem_access(&s, sizeof s, false, true, __builtin_return_address(0));
    if (me == nullptr) {
        return s.data[0] > 0 ? (s.data[0]--, true) : false;
    }
    rt_guard r;
    yield_point(false);
    if (s.data[0] == 0) {
        return false;
    }
    s.data[0]--;
    sync_acquire(s);
    return true;
}
bool sem_try_acquire_timed(sync_state& s) noexcept {
    if (me == nullptr) {
        return sem_try_acquire(s);
    }
    mem_access(&s, sizeof s, false, true, __builtin_return_address(0));
    rt_guard r;
    yield_point(false);
    while (s.data[0] == 0) {
        block(&s, true);
        if (me->timed_out) {
            break;
        }
    }
    if (s.data[0] == 0) {
        return false;
    }
    s.data[0]--;
    sync_acquire(s);
    return true;
}

bool cv_wait(sync_state& s, bool timed, const std::function<void()>& unlock, const std::function<void()>& relock) noexcept {
    if (me == nullptr) {
        return true;
    }
    bool to = false;
    {
        me->notified = false;
        // registered before the lock is released
        me->on = &s;
        auto* m = me;
        unlock();
        rt_guard r;
        if (!m->notified) {
            block(&s, timed);
            to = m->timed_out;
        }
        m->on = nullptr;
    }
    relock();
    return !to;
}
void cv_notify(sync_state& s, bool all) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    thr* w[MAX_THREADS];
    unsigned n = 0;
    for (auto& t : g.t) {
        if (t.get() != me && t->on == &s && t->state != DONE) {
            w[n++] = t.get();
        }
    }
    if (n == 0) {
        return;
    }
    auto go = [&](thr* t) {
        t->notified = true;
        t->timed_out = false;
        t->on = nullptr;
        if (t->state == BLOCKED || t->state == TIMED) {
            t->state = RUNNABLE;
        }
    };
    if (all) {
        for (unsigned i = 0; i < n; i++) {
            go(w[i]);
        }
    } else {
        go(w[n == 1 || fair() ? 0 : g.c->src.draw(n)]);
    }
}

void latch_init(sync_state& s, std::int64_t n) noexcept {
    s.data[0] = static_cast<u64>(n);
}
void latch_count_down(sync_state& s, std::int64_t n) noexcept {
    if (me == nullptr) {
        s.data[0] -= static_cast<u64>(n);
        return;
    }
    rt_guard r;
    yield_point(false);
    s.data[0] -= static_cast<u64>(n);
    sync_release(s);
    wake_all(&s);
}
bool latch_try(sync_state& s) noexcept {
    if (me == nullptr) {
        return s.data[0] == 0;
    }
    rt_guard r;
    yield_point(false);
    if (s.data[0] != 0) {
        return false;
    }
    sync_acquire(s);
    return true;
}
void latch_wait(sync_state& s) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    while (s.data[0] != 0) {
        block(&s, false);
    }
    sync_acquire(s);
}

// ---- threads ----
namespace {

void logical_exit() {
    auto* m = me;
    m->rt++;
    m->state = DONE;
    m->fin = m->cur;
    m->fin.join(m->acq);
    mem_thread_gone(g.stacks + m->id * STACK, STACK);
    wake_all(m);
    bool all = true;
    for (auto& t : g.t) {
        all = all && t->state == DONE;
    }
    if (all) {
        me = nullptr;
        g.finished.store(1, std::memory_order_release);
        futex_wake(g.finished);
        return;
    }
    auto* t = pick(false);
    if (t == nullptr) {
        deadlock();
    }
    if (!g.o.pct && !fair()) {
        draw_quantum();
    } else {
        g.quantum = 20;
    }
    me = nullptr;
    give(t);
}

struct sentinel {
    bool armed{};
    ~sentinel() {
        if (armed) {
            logical_exit();
        }
    }
};
thread_local sentinel last_out;

void* os_main(void* p) {
    auto* t = static_cast<thr*>(p);
    wait_go(t);
    me = t;
    last_out.armed = true;
    {
        auto fn = std::move(t->fn);
        t->fn = nullptr;
        try {
            fn();
        } catch (const pbt::fail_exception& f) {
            pbt::fail_now(f.msg);
        }
    }
    return nullptr;
}

thr* new_thread(std::function<void()> f) {
    if (g.t.size() >= MAX_THREADS) {
        std::fprintf(stderr, "PBT-INTERNAL: too many threads in one case\n");
        _exit(2);
    }
    auto t = std::make_unique<thr>();
    t->id = static_cast<u32>(g.t.size());
    t->fn = std::move(f);
    t->cur.clk[t->id] = 1;
    if (g.o.pct) {
        t->prio = (1ull << 40) + g.c->src.draw(1000) * 64 + t->id;
    }
    auto* stack = g.stacks + t->id * STACK;
    mem_thread_new(stack, STACK);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, stack, STACK);
    g.t.push_back(std::move(t));
    auto* r = g.t.back().get();
    if (pthread_create(&r->os, &a, os_main, r) != 0) {
        std::fprintf(stderr, "PBT-INTERNAL: pthread_create failed\n");
        _exit(2);
    }
    pthread_attr_destroy(&a);
    return r;
}

} // namespace

u32 t_start(std::function<void()> f) {
    if (me == nullptr) {
        std::fprintf(stderr, "PBT-INTERNAL: thread started outside a case\n");
        _exit(2);
    }
    rt_guard r;
    yield_point(false);
    auto* t = new_thread(std::move(f));
    auto own = t->cur.clk[t->id];
    t->cur = me->cur;
    t->cur.clk[t->id] = own;
    t->rel = view_t{};
    tick();
    auto id = t->id + 1;
    yield_point(false);
    return id;
}

void t_join(u32 id) noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(false);
    auto* t = g.t[id - 1].get();
    while (t->state != DONE) {
        block(t, false);
    }
    me->cur.join(t->fin);
}

void t_yield() noexcept {
    if (me == nullptr) {
        return;
    }
    rt_guard r;
    yield_point(true);
}

u32 rnd() noexcept {
    return static_cast<u32>(mix(g.rng));
}

options draw_options(pbt::source& s) {
    options o;
    o.weak = s.draw(2) == 1;
    o.pct = s.draw(4) == 3;
    o.quantum_class = static_cast<u32>(s.draw(3));
    static constexpr u32 den[] = { 16, 6, 3 };
    o.stale_den = den[s.draw(3)];
    return o;
}

void run(pbt::ctx& c, const options& o, const std::function<void()>& body) {
    if (g.stacks == nullptr) {
        g.stacks = static_cast<char*>(mmap(nullptr, STACK * MAX_THREADS, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        // baton passing is fastest on one core
        cpu_set_t all;
        CPU_ZERO(&all);
        if (sched_getaffinity(0, sizeof all, &all) == 0) {
            int n = CPU_COUNT(&all), k = static_cast<int>(pbt::worker_index() % static_cast<unsigned>(n));
            for (int i = 0; i < CPU_SETSIZE; i++) {
                if (CPU_ISSET(i, &all) && k-- == 0) {
                    cpu_set_t one;
                    CPU_ZERO(&one);
                    CPU_SET(i, &one);
                    sched_setaffinity(0, sizeof one, &one);
                    break;
                }
            }
        }
    }
    g.c = &c;
    g.o = o;
    g.epoch++;
    g.t.clear();
    g.locs.clear();
    g.free_locs.clear();
    g.views.clear();
    g.addrs.clear();
    g.n_addr = 0;
    g.sc = view_t{};
    g.steps = g.preempt = g.stale = g.sw = g.rr = 0;
    g.low = 1ull << 39;
    g.rng = c.src.draw(1u << 30);
    g.finished = 0;
    for (auto& p : g.points) {
        p = o.pct ? 1 + c.src.small(4000) : 0;
    }
    if (!o.pct) {
        draw_quantum();
    }
    pbt::fail_immediately(true);
    mem_case_begin();
    auto* t = new_thread(body);
    give(t);
    while (g.finished.load(std::memory_order_acquire) == 0) {
        futex_wait(g.finished, 0);
    }
    for (auto& q : g.t) {
        pthread_join(q->os, nullptr);
    }
    mem_case_end();
    pbt::fail_immediately(false);
    c.steps = g.steps;
}

} // namespace sched

// Initialisation of function-local statics: a thread that loses the race has to wait in the scheduler.
extern "C" {
int __cxa_guard_acquire(std::uint64_t* gp) {
    auto* b = reinterpret_cast<unsigned char*>(gp);
    if (sched::active()) {
        sched::rt_guard r;
        while (b[0] == 0 && b[1] != 0) {
            sched::block(gp, false);
        }
        sched::me->cur.join(sched::addr_view(gp));
    }
    if (b[0] != 0) {
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(std::uint64_t* gp) {
    auto* b = reinterpret_cast<unsigned char*>(gp);
    b[0] = 1;
    b[1] = 0;
    if (sched::active()) {
        sched::rt_guard r;
        sched::addr_view(gp).join(sched::me->cur);
        sched::tick();
        sched::wake_all(gp);
    }
}
void __cxa_guard_abort(std::uint64_t* gp) {
    auto* b = reinterpret_cast<unsigned char*>(gp);
    b[1] = 0;
    if (sched::active()) {
        sched::rt_guard r;
        sched::wake_all(gp);
    }
}
}
