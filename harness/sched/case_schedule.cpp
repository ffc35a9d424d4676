// C10 and C11: schedules of generated systems on the thread pool under generated interleavings.
#include "shim.hpp"

#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/named_system.hpp>
#include <co_ecs/system/schedule.hpp>

namespace {
using sched::quiet;
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using co_ecs::entity;
using co_ecs::thread_pool;

struct a_t {
    u64 v;
};
struct b_t {
    u64 v;
};
struct c_t {
    u64 v;
};
/// created and destroyed by commands and by systems with exclusive registry access
struct d_t {
    u64 token;
    u64 touched{};
};
/// set by commands on the entity that belongs to the system
struct e_t {
    u64 v;
};
/// take ids, so that those of the components above are not all small ones
template<int I>
struct filler {};
template<int From, std::size_t... I>
bool fill(std::index_sequence<I...>) {
    return ((co_ecs::component_id::get<filler<From + int(I)>>() != co_ecs::invalid_component_id) && ...);
}
const bool filled[] = { co_ecs::component_id::get<a_t>() != co_ecs::invalid_component_id, fill<0>(std::make_index_sequence<70>{}),
    co_ecs::component_id::get<b_t>() != co_ecs::invalid_component_id, fill<70>(std::make_index_sequence<190>{}),
    co_ecs::component_id::get<c_t>() != co_ecs::invalid_component_id };
template<std::size_t... I>
std::vector<co_ecs::component_meta> filler_metas(std::index_sequence<I...>) {
    return { co_ecs::component_meta::of<filler<int(I)>>()... };
}
struct reg_reader { // custom system argument with read access to the whole registry
    const co_ecs::registry* r;
};
struct user_arg { // custom system argument, fed from the user context
    void* context;
};

} // namespace

template<>
class co_ecs::system_argument_state_trait<reg_reader> {
public:
    struct state_type {
        reg_reader arg;
        explicit state_type(co_ecs::registry& r, void*) : arg{ &r } {
        }
        reg_reader& get() {
            return arg;
        }
        auto access_pattern() const -> co_ecs::access_pattern_t {
            return { co_ecs::access_type::read };
        }
    };
};
template<>
class co_ecs::system_argument_state_trait<user_arg> {
public:
    struct state_type {
        user_arg arg;
        explicit state_type(co_ecs::registry&, void* context) : arg{ context } {
        }
        user_arg& get() {
            return arg;
        }
        auto access_pattern() const -> co_ecs::access_pattern_t {
            return {};
        }
    };
};

namespace {
/// what a system may do, worked out from its parameters; independent of access_pattern_t
struct access {
    std::array<int, 4> comp{}; // 0 none, 1 read, 2 write; a b c d
    int reg{};                 // 0 none, 1 read, 2 exclusive
    bool commands{};
    bool any() const {
        return commands || reg != 0 || comp != std::array<int, 4>{};
    }
};
bool conflict(const access& x, const access& y) {
    if ((x.reg == 2 && y.any()) || (y.reg == 2 && x.any())) {
        return true;
    }
    for (int i = 0; i < 4; i++) {
        int xi = std::max(x.comp[i], x.reg), yi = std::max(y.comp[i], y.reg);
        if ((xi == 2 && yi != 0) || (yi == 2 && xi != 0)) {
            return true;
        }
    }
    return false;
}
template<typename T>
constexpr int comp_index = std::is_same_v<T, a_t> ? 0 : std::is_same_v<T, b_t> ? 1 : std::is_same_v<T, c_t> ? 2 : std::is_same_v<T, d_t> ? 3 : -1;

template<typename T>
struct arg_access {
    static void add(access&) {
    }
};
template<typename... Cs>
struct arg_access<co_ecs::view<Cs...>> {
    static void add(access& x) {
        (add1<Cs>(x), ...);
    }
    template<typename C>
    static void add1(access& x) {
        constexpr int i = comp_index<std::remove_cvref_t<C>>;
        if constexpr (i >= 0) {
            x.comp[i] = std::max(x.comp[i], std::is_const_v<std::remove_reference_t<C>> ? 1 : 2);
        }
    }
};
template<>
struct arg_access<co_ecs::registry&> {
    static void add(access& x) {
        x.reg = 2;
    }
};
template<>
struct arg_access<const co_ecs::registry&> {
    static void add(access& x) {
        x.reg = std::max(x.reg, 1);
    }
};
template<>
struct arg_access<reg_reader> {
    static void add(access& x) {
        x.reg = std::max(x.reg, 1);
    }
};
template<>
struct arg_access<co_ecs::command_writer> {
    static void add(access& x) {
        x.commands = true;
    }
};

struct sysinfo {
    int stage{}; // -1: init
    bool main{};
    int sig{};
    int how{};        // plain, named, by std::function, an lvalue that ends
    u64 behaviour{};  // yields, parallel loops, tasks
    u64 creates{};    // commands per run
    bool sets{};      // sets e on its own entity
    bool destroys{};  // destroys by command what it created in the pass before
    access acc;
    // run time
    std::vector<int> runs; // per pass (0: init)
    entity own;            // carries e_t
    u64 set_value{};
    std::vector<std::pair<entity, u64>> created; // by the last run
};

struct world;
world* W; // the case being run

void run_sys(int id, const access& acc, const std::function<void()>& body);

template<typename... A>
struct sys {
    int id;
    world* w;
    u64 pad[3]{};
    void operator()(A... args) const;
};

/// a function object that lives shorter than the schedule it is added to
template<typename... A>
struct passing {
    sys<A...> f;
    volatile bool gone{};
    explicit passing(sys<A...> f) : f(f) {
    }
    passing(const passing& rhs) : f(rhs.f) {
        PBT_CHECK(!rhs.gone, "the function object of system " << f.id << " is copied after its end");
    }
    ~passing() {
        gone = true;
    }
    void operator()(A... args) const {
        PBT_CHECK(!gone, "system " << f.id << " runs by a function object that has been destroyed");
        f(std::forward<A>(args)...);
    }
};

struct world {
    pbt::ctx& c;
    pbt::source& s;
    bool overlap; // C11, otherwise C10
    std::unique_ptr<co_ecs::registry> r;
    std::vector<sysinfo> sys;
    std::vector<std::unique_ptr<std::byte[]>> memory;
    int stages{};
    int pass{}; // 0: init
    int pass2{ -1 }; // the pass that is the creation of a second executor
    bool initialising() const {
        return pass == 0 || pass == pass2;
    }
    u64 workers{};
    std::vector<entity> ents; // fixed population with a, b, c
    std::vector<std::array<u64, 3>> vals;
    std::vector<std::array<bool, 3>> has;
    std::map<u64, bool> tokens; // d tokens that exist, true: will be destroyed by the end of the pass
    std::vector<u64> doomed;
    u64 next{ 1 };
    u32 caller{};
    void* context{};
    std::vector<int> active;
    int finished_in_stage{};
    std::vector<std::vector<int>> done; // [stage+1][..] finished count per pass
    u64 foreign{}, together{}, total{}, commands{}, conflicts{};


    world(pbt::ctx& c, bool overlap) : c(c), s(c.src), overlap(overlap) {
    }

    int count(int stage) const {
        int n = 0;
        for (auto& x : sys) {
            n += x.stage == stage;
        }
        return n;
    }
    int finished(int stage) const {
        int n = 0;
        for (auto& x : sys) {
            if (x.stage == stage) {
                n += x.runs[static_cast<std::size_t>(pass)] / 1000;
            }
        }
        return n;
    }
    void enter(int id) {
        auto& x = sys[id];
        auto t = sched::self();
        PBT_NOTE(c, "T" << t - 1 << " system " << id << " starts (stage " << x.stage << (x.main ? ", main" : "") << ", sig " << x.sig << ", pass "
                        << pass << ")");
        total++;
        foreign += t != caller;
        together += !active.empty();
        if (overlap) {
            for (int o : active) {
                PBT_CHECK(!conflict(sys[o].acc, x.acc), "system " << id << " (sig " << x.sig << (x.main ? ", main thread" : "") << ") starts while system " << o
                                                                << " (sig " << sys[o].sig << (sys[o].main ? ", main thread" : "")
                                                                << "), whose accesses conflict with it, is running");
            }
        } else {
            auto& n = x.runs[static_cast<std::size_t>(pass)];
            PBT_CHECK(n == 0, "system " << id << " of stage " << x.stage << (x.main ? " (main thread)" : "") << " runs again in pass " << pass);
            n++;
            PBT_CHECK(!initialising() || x.stage == -1, "system " << id << " of stage " << x.stage << " runs before the first pass");
            PBT_CHECK(initialising() || x.stage != -1, "init system " << id << " runs in pass " << pass);
            PBT_CHECK(!x.main || t == caller, "main-thread system " << id << " runs on thread T" << t - 1);
            for (auto& y : sys) {
                if (pass > 0 && y.stage >= 0 && y.stage < x.stage) {
                    PBT_CHECK(y.runs[static_cast<std::size_t>(pass)] >= 1000, "system " << id << " of stage " << x.stage << " starts before a system of stage "
                                                                                        << y.stage << " has finished");
                }
            }
            for (int o : active) {
                PBT_CHECK(sys[o].stage == x.stage, "systems of stages " << sys[o].stage << " and " << x.stage << " run at the same time");
            }
        }
        active.push_back(id);
    }
    void leave(int id) {
        PBT_NOTE(c, "T" << sched::self() - 1 << " system " << id << " ends");
        if (!overlap) {
            sys[id].runs[static_cast<std::size_t>(pass)] += 1000;
        }
        active.erase(std::find(active.begin(), active.end(), id));
    }

    // bodies -------------------------------------------------------------------------------------------------------
    template<typename... Cs>
    void use(int id, co_ecs::view<Cs...>& v) {
        auto& x = sys[id];
        u64 seen = 0;
        auto one = [&](Cs... cs) {
            seen++;
            (touch<Cs>(cs), ...);
        };
        if (x.behaviour & 1) {
            std::atomic<u64> n{ 0 };
            auto par = [&](Cs... cs) {
                n.fetch_add(1, std::memory_order_relaxed);
                (touch<Cs>(cs), ...);
            };
            v.par_each(par);
            seen = n.load(std::memory_order_relaxed);
        } else if (x.behaviour & 2) {
            for (auto t : v.each()) {
                std::apply(one, t);
            }
        } else {
            v.each(one);
        }
        quiet q;
        u64 want = 0;
        bool has_d = false;
        for (auto& h : has) {
            bool ok = true;
            auto chk = [&]<typename C>(std::type_identity<C>) {
                constexpr int i = comp_index<std::remove_cvref_t<C>>;
                if constexpr (i >= 0 && i < 3) {
                    ok = ok && h[i];
                }
                has_d = has_d || i == 3;
            };
            (chk(std::type_identity<Cs>{}), ...);
            want += ok;
        }
        constexpr bool only_entity = (std::is_same_v<std::remove_cvref_t<Cs>, entity> && ...);
        if (!has_d && !only_entity) {
            PBT_CHECK(seen == want, "the view given to system " << id << " has " << seen << " entities, expected " << want);
        }
        if (!has_d) {
            for (std::size_t e = 0; e < ents.size(); e++) {
                bool ok = true;
                auto chk = [&]<typename C>(std::type_identity<C>) {
                    constexpr int i = comp_index<std::remove_cvref_t<C>>;
                    if constexpr (i >= 0 && i < 3) {
                        ok = ok && has[e][i];
                    }
                };
                (chk(std::type_identity<Cs>{}), ...);
                auto add = [&]<typename C>(std::type_identity<C>) {
                    constexpr int i = comp_index<std::remove_cvref_t<C>>;
                    if constexpr (i >= 0 && i < 3 && !std::is_const_v<std::remove_reference_t<C>>) {
                        vals[e][i] += 1;
                    }
                };
                if (ok) {
                    (add(std::type_identity<Cs>{}), ...);
                }
            }
        }
    }
    template<typename C>
    void touch(C& x) {
        using T = std::remove_cvref_t<C>;
        if constexpr (std::is_same_v<T, entity>) {
            sink(u64(x.id()));
        } else if constexpr (std::is_same_v<T, d_t>) {
            if constexpr (std::is_const_v<std::remove_reference_t<C>>) {
                sink(x.touched + x.token);
            } else {
                x.touched += 1;
            }
        } else if constexpr (std::is_const_v<std::remove_reference_t<C>>) {
            sink(x.v);
        } else {
            u64 v = x.v;
            if (v % 5 == 3) {
                std::this_thread::yield();
            }
            x.v = v + 1;
        }
    }
    __attribute__((noinline)) void sink(u64 v) {
        asm volatile("" : : "r"(v));
    }
    void use(int id, co_ecs::registry& x) {
        for (std::size_t e = 0; e < ents.size(); e++) {
            auto ref = x.get_entity(ents[e]);
            if (ref.has<a_t>()) {
                ref.get<a_t>().v += 1;
            }
            if (ref.has<b_t>()) {
                sink(ref.get<b_t>().v);
            }
            quiet q;
            vals[e][0] += has[e][0];
        }
        u64 token;
        {
            quiet q;
            token = next++;
            tokens[token] = false;
        }
        entity h = x.create<d_t>({ token });
        entity old{ entity::invalid() };
        u64 old_token = 0;
        {
            quiet q;
            PBT_NOTE(c, "system " << id << " creates token " << token);
            if (sys[id].destroys && !sys[id].created.empty()) {
                std::tie(old, old_token) = sys[id].created.back();
                sys[id].created.pop_back();
                tokens.erase(old_token);
            }
            sys[id].created.emplace_back(h, token);
        }
        if (old != entity::invalid()) {
            x.destroy(old);
        }
    }
    void use(int, const co_ecs::registry& x) {
        for (std::size_t e = 0; e < ents.size(); e++) {
            auto ref = x.get_entity(ents[e]);
            if (ref.has<a_t>()) {
                sink(ref.get<a_t>().v);
            }
            if (ref.has<c_t>()) {
                sink(ref.get<c_t>().v);
            }
        }
        x.each([&](const d_t& d) { sink(d.touched); });
        x.view<const b_t&>().each([&](const b_t& b) { sink(b.v); });
    }
    void use(int id, co_ecs::command_writer& w) {
        std::vector<std::pair<entity, u64>> old;
        u64 n;
        bool sets;
        entity own;
        {
            quiet q;
            auto& x = sys[id];
            if (x.destroys && x.acc.reg != 2) {
                old.swap(x.created);
                for (auto& [h, t] : old) {
                    doomed.push_back(t);
                }
            }
            n = x.creates;
            sets = x.sets;
            own = x.own;
        }
        for (auto& [h, t] : old) {
            w.destroy(h);
        }
        for (u64 k = 0; k < n; k++) {
            u64 token;
            {
                quiet q;
                token = next++;
                tokens[token] = false;
                commands++;
            }
            entity h = w.create<d_t>({ token });
            quiet q;
            PBT_NOTE(c, "system " << id << " commands creation of token " << token);
            if (sys[id].acc.reg != 2) {
                sys[id].created.emplace_back(h, token);
            }
        }
        if (sets) {
            for (int k = 0; k < 2; k++) {
                u64 v;
                {
                    quiet q;
                    v = next++;
                    sys[id].set_value = v;
                    commands++;
                }
                w.get_entity(own).set<e_t>(v);
            }
        }
    }
    void use(int id, reg_reader& x) {
        use(id, *x.r);
    }
    void use(int id, user_arg& u) {
        quiet q;
        PBT_CHECK(u.context == context, "system " << id << " got another user context");
    }

    template<typename... A>
    void body(int id, A&... args) {
        u64 behaviour;
        {
            quiet q;
            enter(id);
            behaviour = sys[id].behaviour;
        }
        if (behaviour & 4) {
            std::this_thread::yield();
        }
        {
            std::optional<quiet> q;
            if (!overlap) {
                q.emplace();
            }
            (use(id, args), ...);
        }
        if (behaviour & 8) {
            auto* t = thread_pool::get().submit([] { std::this_thread::yield(); });
            thread_pool::get().wait(t);
        }
        if (behaviour & 16) {
            std::this_thread::yield();
        }
        quiet q;
        leave(id);
    }

    void check_state(const char* when) {
        for (std::size_t e = 0; e < ents.size(); e++) {
            auto x = r->get_entity(ents[e]);
            auto is = [&](bool h, u64 got, u64 want, const char* n) {
                PBT_CHECK(!h || got == want, "component " << n << " of entity " << e << " is " << got << " after " << when << ", expected " << want
                                                          << ": the effect of a system is lost or doubled");
            };
            if (has[e][0]) {
                is(true, x.get<a_t>().v, vals[e][0], "a");
            }
            if (has[e][1]) {
                is(true, x.get<b_t>().v, vals[e][1], "b");
            }
            if (has[e][2]) {
                is(true, x.get<c_t>().v, vals[e][2], "c");
            }
        }
        for (auto t : doomed) {
            tokens.erase(t);
        }
        doomed.clear();
        std::map<u64, int> seen;
        r->view<const d_t&>().each([&](const d_t& d) { seen[d.token]++; });
        for (auto& [t, n] : seen) {
            PBT_CHECK(n == 1 && tokens.count(t), "after " << when << " there " << (n == 1 ? "is an entity" : "are several entities") << " with token " << t
                                                          << (tokens.count(t) ? "" : ", which was destroyed by a command"));
        }
        for (auto& [t, x] : tokens) {
            PBT_CHECK(seen.count(t), "after " << when << " no entity has token " << t << ": the command or change that created it was not applied");
        }
        for (std::size_t i = 0; i < sys.size(); i++) {
            auto& x = sys[i];
            if (x.set_value != 0) {
                auto ref = r->get_entity(x.own);
                PBT_CHECK(ref.has<e_t>() && ref.get<e_t>().v == x.set_value, "after " << when << " the set command of system " << i << " was not applied");
            }
        }
        u64 n = 0;
        r->view<const entity&>().each([&](const entity&) { n++; });
        PBT_CHECK(n == ents.size() + sys.size() + tokens.size(), "after " << when << " the registry has " << n << " entities, expected "
                                                                          << ents.size() + sys.size() + tokens.size());
    }
    void check_runs(int p) {
        if (overlap) {
            return;
        }
        for (std::size_t i = 0; i < sys.size(); i++) {
            auto& x = sys[i];
            bool due = (x.stage == -1) == (p == 0 || p == pass2);
            auto n = x.runs[static_cast<std::size_t>(p)];
            PBT_CHECK(n == (due ? 1001 : 0), "system " << i << " of stage " << x.stage << (x.main ? " (main thread)" : "") << " has run " << n / 1000
                                                       << " times at the end of pass " << p << (p == 0 || p == pass2 ? " (init)" : ""));
        }
    }
};

template<typename... A>
void sys<A...>::operator()(A... args) const {
    w->body(id, args...);
}

using co_ecs::view;
using cw = co_ecs::command_writer;
template<typename... A>
struct sig {};
using sigs = std::tuple<sig<view<a_t&>>, sig<view<const a_t&>>, sig<view<b_t&>>, sig<view<const b_t&>>, sig<view<a_t&, const b_t&>>,
    sig<view<const a_t&, b_t&>>, sig<view<c_t&>>, sig<view<const c_t&>>, sig<>, sig<cw>, sig<co_ecs::registry&>, sig<const co_ecs::registry&>,
    sig<cw, view<const a_t&>>, sig<cw, view<const entity&, const d_t&>>, sig<co_ecs::registry&, cw>, sig<view<a_t&>, view<b_t&>>,
    sig<view<const a_t&>, view<const b_t&>, view<c_t&>>, sig<view<a_t&, b_t&, c_t&>>, sig<view<const a_t&, const b_t&, const c_t&>>, sig<view<d_t&>>,
    sig<const co_ecs::registry&, view<c_t&>>, sig<view<const entity&>>, sig<user_arg, view<b_t&, const c_t&>>, sig<view<const c_t&>, cw, view<const d_t&>>,
    sig<view<const entity&, a_t&, const c_t&>, user_arg>, sig<const co_ecs::registry&, cw>, sig<view<const a_t&>, view<a_t&>>, sig<user_arg>,
    sig<view<a_t&>, view<const a_t&>>, sig<view<const a_t&>, view<a_t&>, view<const a_t&, const c_t&>>, sig<view<const b_t&>, co_ecs::registry&>,
    sig<co_ecs::registry&, view<a_t&>>, sig<reg_reader>, sig<reg_reader, view<b_t&>>, sig<view<c_t&>, reg_reader>>;
constexpr std::size_t nsigs = std::tuple_size_v<sigs>;

template<typename... A>
access access_of(sig<A...>) {
    access x;
    (arg_access<A>::add(x), ...);
    return x;
}
template<typename Target, typename... A>
void add_to(Target& t, world& w, int id, sig<A...>) {
    auto& x = w.sys[static_cast<std::size_t>(id)];
    sys<A...> f{ id, &w };
    switch (x.how) {
    case 0:
        x.main ? t.add(co_ecs::main_thread_execution_policy, std::move(f)) : t.add(std::move(f));
        break;
    case 1: {
        auto n = CO_ECS_MAKE_NAMED_SYSTEM(f);
        x.main ? t.add(co_ecs::main_thread_execution_policy, std::move(n)) : t.add(std::move(n));
        break;
    }
    case 3: {
        // an lvalue that ends once it has been added; its memory stays
        using object = passing<A...>;
        static_assert(alignof(object) <= __STDCPP_DEFAULT_NEW_ALIGNMENT__);
        w.memory.push_back(std::make_unique<std::byte[]>(sizeof(object)));
        auto* p = std::construct_at(reinterpret_cast<object*>(w.memory.back().get()), f);
        const auto& fn = *p;
        x.main ? t.add(co_ecs::main_thread_execution_policy, fn) : t.add(fn);
        std::destroy_at(p);
        break;
    }
    default: {
        std::function<void(A...)> fn = f;
        x.main ? t.add(co_ecs::main_thread_execution_policy, std::move(fn)) : t.add(std::move(fn));
    }
    }
}
struct to_stage {
    co_ecs::stage& s;
    void add(auto&&... a) {
        s.add_system(std::forward<decltype(a)>(a)...);
    }
};
struct to_init {
    co_ecs::schedule& s;
    void add(auto&&... a) {
        s.add_init_system(std::forward<decltype(a)>(a)...);
    }
};
template<typename Target>
void add_system(Target t, world& w, int id) {
    auto go = [&]<std::size_t... I>(std::index_sequence<I...>) {
        (void)((w.sys[static_cast<std::size_t>(id)].sig == int(I) && (add_to(t, w, id, std::tuple_element_t<I, sigs>{}), true)) || ...);
    };
    go(std::make_index_sequence<nsigs>{});
}
access access_by_index(int i) {
    access r;
    auto go = [&]<std::size_t... I>(std::index_sequence<I...>) {
        (void)((i == int(I) && (r = access_of(std::tuple_element_t<I, sigs>{}), true)) || ...);
    };
    go(std::make_index_sequence<nsigs>{});
    return r;
}

void case_schedule(pbt::ctx& c, bool overlap) {
    auto& s = c.src;
    auto o = sched::draw_options(s);
    static constexpr std::size_t ws[] = { 2, 1, 3, 4, 6 };
    world w(c, overlap);
    w.workers = ws[s.draw(5)];
    // few cases with many stages and systems, or with many passes
    bool wide = s.draw(40) == 39, deep = !wide && s.draw(40) == 39;
    w.stages = static_cast<int>(wide ? 1 + s.draw(overlap ? 3 : s.draw(2) ? 12 : 1) : overlap ? 1 + s.draw(2) : s.draw(5));
    auto passes = deep ? 5 + s.draw(20) : 1 + s.small(overlap ? 2 : 3);
    // signatures of one case come from a small palette so that conflicts and non-conflicts both happen
    std::vector<int> palette;
    auto np = wide ? 1 + s.draw(3) : 2 + s.draw(5);
    for (u64 i = 0; i < np; i++) {
        palette.push_back(static_cast<int>(s.draw(nsigs)));
    }
    auto make = [&](int stage) {
        s.mark();
        sysinfo x;
        x.stage = stage;
        x.sig = palette[s.draw(palette.size())];
        x.main = s.draw(4) == 3;
        x.how = static_cast<int>(s.weighted({ 4, 1, 1, 1 }));
        x.behaviour = s.draw(32);
        if (x.behaviour & 1 && s.draw(3) != 2) {
            x.behaviour &= ~1ull;
        }
        x.creates = s.small(4);
        x.sets = s.draw(3) == 2;
        x.destroys = s.draw(3) == 2;
        x.acc = access_by_index(x.sig);
        x.runs.assign(passes + 1, 0);
        w.sys.push_back(x);
    };
    auto ninit = s.small(4);
    for (u64 i = 0; i < ninit; i++) {
        make(-1);
    }
    for (int st = 0; st < w.stages; st++) {
        auto n = wide ? s.draw(w.stages > 3 ? 12 : w.stages > 1 ? 45 : 90) : overlap ? 1 + s.small(8) : s.small(deep ? 3 : 6);
        for (u64 i = 0; i < n; i++) {
            make(st);
        }
    }
    auto pop = 1 + s.small(wide || deep ? 3 : 10);
    bool in_task = s.draw(8) == 7;
    // a second executor of the same schedule, with another user context
    if (passes > 1 && s.draw(4) == 3) {
        w.pass2 = 1 + static_cast<int>(s.draw(passes));
    }
    o.budget += (w.sys.size() + 1) * passes * (2000 + pop * 200);
    sched::run(c, o, [&] {
        w.r = std::make_unique<co_ecs::registry>();
        auto& r = *w.r;
        for (u64 k = 0; k < pop; k++) {
            u64 v = w.next++ * 10;
            switch (k % 5) {
            case 0:
                w.ents.push_back(r.create<a_t, b_t, c_t>({ v }, { v + 1 }, { v + 2 }));
                w.has.push_back({ true, true, true });
                break;
            case 1:
                w.ents.push_back(r.create<a_t>({ v }));
                w.has.push_back({ true, false, false });
                break;
            case 2:
                w.ents.push_back(r.create<b_t, a_t>({ v + 1 }, { v }));
                w.has.push_back({ true, true, false });
                break;
            case 3:
                w.ents.push_back(r.create<c_t>({ v + 2 }));
                w.has.push_back({ false, false, true });
                break;
            default:
                w.ents.push_back(r.create<c_t, b_t>({ v + 2 }, { v + 1 }));
                w.has.push_back({ false, true, true });
            }
            w.vals.push_back({ v, v + 1, v + 2 });
        }
        struct own_t {
            u64 x;
        };
        for (auto& x : w.sys) {
            x.own = r.create<own_t>({ 1 });
        }
        {
            thread_pool pool(w.workers);
            auto job = [&] {
                w.caller = sched::self();
                w.context = &w;
                std::unique_ptr<co_ecs::schedule_executor> exec, exec2;
                auto schedule = std::make_unique<co_ecs::schedule>();
                for (std::size_t i = 0; i < w.sys.size(); i++) {
                    if (w.sys[i].stage == -1) {
                        add_system(to_init{ *schedule }, w, static_cast<int>(i));
                    }
                }
                for (int st = 0; st < w.stages; st++) {
                    auto& stage = schedule->begin_stage("stage");
                    for (std::size_t i = 0; i < w.sys.size(); i++) {
                        if (w.sys[i].stage == st) {
                            add_system(to_stage{ stage }, w, static_cast<int>(i));
                        }
                    }
                    stage.end_stage();
                }
                exec = schedule->create_executor(r, w.context);
                if (w.pass2 < 0) {
                    schedule.reset();
                }
                w.check_runs(0);
                w.check_state("the init systems");
                for (u64 p = 1; p <= passes; p++) {
                    w.pass = static_cast<int>(p);
                    bool second = exec2 && p % 2;
                    {
                        quiet q;
                        PBT_NOTE(c, (w.pass == w.pass2 ? "second executor " : second ? "run_once of the second executor " : "run_once ") << p);
                        w.context = second || w.pass == w.pass2 ? static_cast<void*>(&w.next) : &w;
                    }
                    if (w.pass == w.pass2) {
                        exec2 = schedule->create_executor(r, w.context);
                        schedule.reset();
                    } else {
                        (second ? exec2 : exec)->run_once();
                    }
                    w.check_runs(w.pass);
                    w.check_state("run_once");
                }
            };
            if (in_task) {
                pool.wait(pool.submit(job));
            } else {
                job();
            }
        }
        co_ecs::command_buffer::flush(r);
        w.check_state("an extra flush");
        w.r.reset();
    });
    u64 conflicting = 0;
    for (std::size_t i = 0; i < w.sys.size(); i++) {
        for (std::size_t k = 0; k < i; k++) {
            conflicting += w.sys[i].stage == w.sys[k].stage && conflict(w.sys[i].acc, w.sys[k].acc);
        }
    }
    c.label("cases with up to 90 systems or 12 stages", wide);
    c.label("cases with 5 to 24 passes", deep);
    c.label("cases with two executors of a schedule", w.pass2 > 0);
    c.label("system runs", w.total);
    c.label("system runs that overlapped another one", w.together);
    c.label("system runs on other threads", w.foreign);
    c.label("conflicting pairs", conflicting);
    c.label("commands", w.commands);
    c.label("preemptions", sched::preemptions());
    if (overlap ? (w.together > 0 && conflicting > 0) : (w.foreign > 0 && w.total >= 3)) {
        c.nontrivial();
    }
}
/// access patterns directly: what allows() lets through must not conflict
void case_patterns(pbt::ctx& c) {
    auto& s = c.src;
    using pattern = co_ecs::access_pattern_t;
    static const auto fillers = filler_metas(std::make_index_sequence<260>{});
    std::vector<co_ecs::component_meta> metas{ co_ecs::component_meta::of<a_t>(), co_ecs::component_meta::of<b_t>(),
        co_ecs::component_meta::of<c_t>(), co_ecs::component_meta::of<d_t>() };
    if (s.draw(2) == 1) {
        for (auto& m : metas) {
            std::size_t k = s.draw(fillers.size());
            while (std::any_of(metas.begin(), metas.end(), [&](auto& o) { return o.id == fillers[k].id; })) {
                k = (k + 1) % fillers.size();
            }
            m = fillers[k];
        }
    }
    static constexpr co_ecs::access_type types[] = { co_ecs::access_type::none, co_ecs::access_type::read, co_ecs::access_type::write };
    auto make = [&](access& x, const char* name) {
        pattern p;
        auto n = s.small(6);
        std::ostringstream os;
        for (u64 k = 0; k < n; k++) {
            s.mark();
            pattern q;
            if (s.draw(5) == 4) {
                auto t = s.draw(3);
                q = pattern(types[t]);
                x.reg = std::max(x.reg, static_cast<int>(t));
                os << " reg:" << t;
            } else {
                auto i = s.draw(4);
                auto t = 1 + s.draw(2);
                q = pattern(types[t], metas[i]);
                x.comp[i] = std::max(x.comp[i], static_cast<int>(t));
                os << " " << i << ":" << t;
            }
            switch (s.draw(3)) {
            case 0:
                p &= q;
                break;
            case 1:
                p = p & q;
                break;
            default:
                p = q & p;
            }
        }
        PBT_NOTE(c, name << " =" << os.str());
        for (int i = 0; i < 4; i++) {
            auto eff = std::max(x.comp[i], x.reg);
            PBT_CHECK(p.reads(metas[i].id) == (eff != 0), "reads(" << i << ") of" << os.str() << " is " << p.reads(metas[i].id));
            PBT_CHECK(p.writes(metas[i].id) == (eff == 2), "writes(" << i << ") of" << os.str() << " is " << p.writes(metas[i].id));
        }
        PBT_CHECK(p.reads_all() == (x.reg != 0) && p.writes_all() == (x.reg == 2), "reads_all / writes_all of" << os.str());
        return p;
    };
    access x, y;
    auto p = make(x, "x");
    auto q = make(y, "y");
    PBT_CHECK(!(p.allows(q) && conflict(x, y)), "pattern x allows y although they conflict");
    PBT_CHECK(!(q.allows(p) && conflict(x, y)), "pattern y allows x although they conflict");
    if (x.any() && y.any()) {
        c.nontrivial();
    }
}
void case_c10(pbt::ctx& c) {
    case_schedule(c, false);
}
void case_c11(pbt::ctx& c) {
    case_schedule(c, true);
}

pbt::registrar r1({ "C10", "schedule", case_c10, 40000, 4000000,
    "generated schedules of 0-4 stages with 0-6 systems each, init systems and main-thread systems, from 35 parameter lists (views, "
    "registry, const registry, command writer, user-defined arguments), plain, named and std::function systems, on 1-6 workers for 1-4 "
    "passes under generated interleavings; every system runs once per pass (init systems once), main-thread systems on the "
    "calling thread, stages in order, component updates, created, set and destroyed entities are exactly those of the model after every pass; hangs are "
    "detected; non-trivial: 3 system runs, one on another thread" });
pbt::registrar r2({ "C11", "overlap", case_c11, 40000, 4000000,
    "the same generator with up to 9 systems per stage; no system starts while one whose declared accesses conflict with it is running, "
    "all component and registry accesses of the systems are checked for data races (happens-before), each view holds the "
    "entities it must; non-trivial: at least one pair of systems overlapped and at least one pair of a stage conflicts" });
pbt::registrar r3({ "C11", "patterns", case_patterns, 100000, 10000000,
    "pairs of access patterns combined from 0-6 registry and component accesses with & and &=; reads, writes, reads_all and writes_all "
    "are the union of the parts, and neither pattern allows the other when they conflict; non-trivial: both patterns have an access" });
} // namespace
