// C04: views report exactly the matching entities, each once, with references to its own components.
#include "machine.hpp"

#include <cmath>
namespace rt {
namespace {

constexpr int E = -1; // entity handle
using rec = std::array<u64, 5>;

template<int I>
struct mut {
    static constexpr int index = I;
    static constexpr bool writes = true;
    using ref = type_t<I>&;
};
template<int I>
struct ro {
    static constexpr int index = I;
    static constexpr bool writes = false;
    using ref = const type_t<I>&;
};
template<>
struct ro<E> {
    static constexpr int index = E;
    static constexpr bool writes = false;
    using ref = const entity&;
};

struct write_log {
    bool on{};
    u64 base{};
    u64 n{};
    std::vector<std::tuple<u64, int, u64>> done; // address, type, value
};

template<typename Q, typename R>
u64 note_one(R& r, write_log& wl) {
    if constexpr (Q::index == E) {
        return key(r);
    } else {
        auto a = reinterpret_cast<u64>(&r);
        if constexpr (Q::writes) {
            if (wl.on) {
                u64 v = wl.base + wl.n++;
                using C = type_t<Q::index>;
                r = maker<C>::make(v);
                wl.done.emplace_back(a, Q::index, C::canon(v));
            }
        }
        return a;
    }
}

/// a view kept alive across changes of the registry
struct kept_view {
    virtual ~kept_view() = default;
    virtual std::vector<rec> run(int form, write_log& wl) = 0;
    virtual std::optional<rec> single(int form) = 0;
};

struct query {
    std::vector<int> index;
    bool all_const;
    std::unique_ptr<kept_view> (*make)(registry&);
    std::vector<rec> (*registry_each)(registry&, write_log&);
    std::optional<rec> (*registry_single)(registry&);
};

constexpr int FORMS = 6;
const char* form_names[FORMS] = { "each() range", "each(callback)", "chunks()", "chunks() with iterators",
    "registry.view().each()", "const view" };

template<typename... Q>
struct kept : kept_view {
    using view_t = co_ecs::view<typename Q::ref...>;
    static constexpr bool is_const = (!Q::writes && ...);
    registry& r;
    view_t v;
    explicit kept(registry& reg) : r(reg), v(reg) {
    }

    static rec to_rec(const std::tuple<typename Q::ref...>& t, write_log& wl) {
        rec x{};
        std::size_t i = 0;
        std::apply([&](auto&... refs) { ((x[i++] = note_one<Q>(refs, wl)), ...); }, t);
        return x;
    }
    static rec to_rec_refs(write_log& wl, typename Q::ref... refs) {
        rec x{};
        std::size_t i = 0;
        ((x[i++] = note_one<Q>(refs, wl)), ...);
        return x;
    }
    std::vector<rec> run(int form, write_log& wl) override {
        std::vector<rec> out;
        switch (form) {
        case 0:
            for (auto t : v.each()) {
                out.push_back(to_rec(t, wl));
            }
            break;
        case 1:
            v.each([&](typename Q::ref... refs) { out.push_back(to_rec_refs(wl, refs...)); });
            break;
        case 2:
            for (auto chunk : v.chunks()) {
                for (auto t : chunk) {
                    out.push_back(to_rec(t, wl));
                }
            }
            break;
        case 3:
            for (auto chunk : v.chunks()) {
                auto it = chunk.begin();
                auto end = chunk.end();
                bool post = false;
                while (!(it == end)) {
                    PBT_CHECK(it < end && it != end, "chunk iterators compare wrongly");
                    out.push_back(to_rec(*it, wl));
                    if (post) {
                        auto old = it++;
                        PBT_CHECK(old != it && old < it, "post-increment of a chunk iterator is wrong");
                    } else {
                        ++it;
                    }
                    post = !post;
                }
            }
            break;
        case 4:
            for (auto t : r.view<typename Q::ref...>().each()) {
                out.push_back(to_rec(t, wl));
            }
            break;
        default:
            if constexpr (is_const) {
                const registry& cr = r;
                const auto cv = cr.view<typename Q::ref...>();
                if (wl.n % 2 == 0) {
                    for (auto t : cv.each()) {
                        out.push_back(to_rec(t, wl));
                    }
                } else {
                    cv.each([&](typename Q::ref... refs) { out.push_back(to_rec_refs(wl, refs...)); });
                }
            } else {
                auto cv = r.view<typename Q::ref...>();
                cv.each([&](typename Q::ref... refs) { out.push_back(to_rec_refs(wl, refs...)); });
            }
        }
        return out;
    }
    std::optional<rec> single(int form) override {
        write_log wl;
        if (form == 0) {
            auto o = v.single();
            return o ? std::optional<rec>(to_rec(*o, wl)) : std::nullopt;
        }
        auto o = r.single<typename Q::ref...>();
        return o ? std::optional<rec>(to_rec(*o, wl)) : std::nullopt;
    }
};

template<typename... Q>
query make_query() {
    query q;
    q.index = { Q::index... };
    q.all_const = (!Q::writes && ...);
    q.make = [](registry& r) -> std::unique_ptr<kept_view> { return std::make_unique<kept<Q...>>(r); };
    q.registry_each = [](registry& r, write_log& wl) {
        std::vector<rec> out;
        auto f = [&](typename Q::ref... refs) { out.push_back(kept<Q...>::to_rec_refs(wl, refs...)); };
        if constexpr (kept<Q...>::is_const) {
            std::as_const(r).each(f);
        } else {
            r.each(f);
        }
        return out;
    };
    q.registry_single = [](registry& r) -> std::optional<rec> {
        write_log wl;
        if constexpr (kept<Q...>::is_const) {
            auto o = std::as_const(r).template single<typename Q::ref...>();
            return o ? std::optional<rec>(kept<Q...>::to_rec(*o, wl)) : std::nullopt;
        } else {
            auto o = r.single<typename Q::ref...>();
            return o ? std::optional<rec>(kept<Q...>::to_rec(*o, wl)) : std::nullopt;
        }
    };
    return q;
}

const std::vector<query>& queries() {
    static const std::vector<query> q{
        make_query<ro<E>>(),
        make_query<ro<0>>(),
        make_query<mut<0>>(),
        make_query<ro<12>>(),
        make_query<mut<12>>(),
        make_query<ro<15>>(),
        make_query<mut<15>>(),
        make_query<ro<9>>(),
        make_query<ro<E>, ro<12>>(),
        make_query<ro<E>, mut<0>>(),
        make_query<mut<12>, ro<0>>(),
        make_query<ro<0>, mut<12>>(),
        make_query<ro<E>, ro<9>>(),
        make_query<mut<18>, ro<15>>(),
        make_query<ro<0>, ro<E>, mut<15>>(),
        make_query<ro<7>, mut<1>, ro<14>>(),
        make_query<mut<6>, mut<8>>(),
        make_query<ro<0>, ro<12>, ro<15>>(),
        make_query<ro<E>, mut<0>, mut<12>, mut<15>>(),
        make_query<mut<16>>(),
        make_query<ro<2>, ro<3>, ro<4>, ro<5>>(),
        make_query<ro<13>, ro<12>>(),
        make_query<ro<E>, mut<25>, ro<27>>(),
        make_query<mut<2>>(),
    };
    return q;
}

struct viewing : machine {
    using machine::machine;
    struct held {
        std::size_t qi;
        std::size_t reg;
        std::unique_ptr<kept_view> v;
    };
    std::vector<held> kept_views;
    u64 nonempty{}, multi_arch{}, writes{}, reused{};

    static std::uint32_t query_mask(const query& q) {
        std::uint32_t m = 0;
        for (int t : q.index) {
            if (t >= 0) {
                m |= 1u << t;
            }
        }
        return m;
    }
    std::string show_query(std::size_t qi) {
        std::string o = "<";
        for (int t : queries()[qi].index) {
            o += (o.size() > 1 ? "," : "") + (t < 0 ? std::string("entity") : std::to_string(t));
        }
        return o + ">";
    }
    void check_result(mreg& g, std::size_t qi, std::vector<rec> got, write_log& wl, const char* form) {
        auto& q = queries()[qi];
        auto mask = query_mask(q);
        std::vector<rec> want;
        std::unordered_map<u64, std::size_t> where;
        std::set<std::uint32_t> archs;
        for (std::size_t k = 0; k < g.ents.size(); k++) {
            auto& e = g.ents[k];
            if ((e.mask & mask) != mask) {
                continue;
            }
            archs.insert(e.mask);
            rec x{};
            for (std::size_t i = 0; i < q.index.size(); i++) {
                int t = q.index[i];
                x[i] = t < 0 ? key(e.h) : reinterpret_cast<u64>(ops[t]->get(*g.r, e.h));
                if (t >= 0) {
                    where[x[i] * 64 + static_cast<u64>(t)] = k;
                }
            }
            want.push_back(x);
        }
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want) {
            std::size_t missing = 0, extra = 0, twice = 0;
            for (auto& x : want) {
                missing += !std::binary_search(got.begin(), got.end(), x);
            }
            for (std::size_t i = 0; i < got.size(); i++) {
                extra += !std::binary_search(want.begin(), want.end(), got[i]);
                twice += i > 0 && got[i] == got[i - 1];
            }
            PBT_FAIL("view " << show_query(qi) << " " << form << " reported " << got.size() << " entries, " << want.size()
                             << " entities match: " << missing << " missing, " << extra << " not belonging, " << twice
                             << " repeated");
        }
        nonempty += !want.empty();
        multi_arch += archs.size() > 1;
        for (auto& [a, t, v] : wl.done) {
            auto it = where.find(a * 64 + static_cast<u64>(t));
            PBT_CHECK(it != where.end(), "internal: written component not in the model");
            g.ents[it->second].put(t, v);
            writes++;
        }
        if (!wl.done.empty()) {
            for (auto& [a, t, v] : wl.done) {
                auto& e = g.ents[where[a * 64 + static_cast<u64>(t)]];
                expect_val(e, t, ops[t]->get(*g.r, e.h), "get after a write through a view");
            }
        }
    }
    void op_query(mreg& g) {
        auto qi = s.draw(queries().size());
        auto& q = queries()[qi];
        auto form = s.draw(FORMS + 2);
        write_log wl;
        wl.on = s.chance(1, 2);
        wl.base = s.draw(1000);
        if (form < FORMS) {
            PBT_NOTE(c, "r" << reg_index(g) << " view " << show_query(qi) << " " << form_names[form]
                            << (wl.on ? ", writing" : ""));
            auto v = q.make(*g.r);
            check_result(g, qi, v->run(static_cast<int>(form), wl), wl, form_names[form]);
        } else if (form == FORMS) {
            PBT_NOTE(c, "r" << reg_index(g) << " registry.each " << show_query(qi));
            check_result(g, qi, q.registry_each(*g.r, wl), wl, "registry.each");
        } else {
            PBT_NOTE(c, "r" << reg_index(g) << " single " << show_query(qi));
            check_single(g, qi, q.registry_single(*g.r));
            check_single(g, qi, q.make(*g.r)->single(static_cast<int>(s.draw(2))));
        }
    }
    void check_single(mreg& g, std::size_t qi, std::optional<rec> got) {
        auto& q = queries()[qi];
        auto mask = query_mask(q);
        bool any = false, match = false;
        for (auto& e : g.ents) {
            if ((e.mask & mask) != mask) {
                continue;
            }
            any = true;
            if (!got) {
                break;
            }
            rec x{};
            for (std::size_t i = 0; i < q.index.size(); i++) {
                int t = q.index[i];
                x[i] = t < 0 ? key(e.h) : reinterpret_cast<u64>(ops[t]->get(*g.r, e.h));
            }
            if (x == *got) {
                match = true;
                break;
            }
        }
        PBT_CHECK(any == got.has_value(), "single " << show_query(qi) << (got ? " returned an entry though no entity matches"
                                                                           : " returned nothing though an entity matches"));
        PBT_CHECK(!got || match, "single " << show_query(qi) << " returned components that are not those of a matching entity");
    }
    void op_keep(mreg& g) {
        if (kept_views.size() >= 4) {
            return;
        }
        auto qi = s.draw(queries().size());
        PBT_NOTE(c, "r" << reg_index(g) << " keep view " << show_query(qi));
        kept_views.push_back({ qi, reg_index(g), queries()[qi].make(*g.r) });
    }
    void op_use_kept() {
        if (kept_views.empty()) {
            return;
        }
        auto& k = kept_views[s.draw(kept_views.size())];
        auto& g = regs[k.reg];
        auto form = s.draw(FORMS + 1);
        write_log wl;
        wl.on = s.chance(1, 3);
        wl.base = s.draw(1000);
        reused++;
        if (form == FORMS) {
            PBT_NOTE(c, "r" << k.reg << " kept view " << show_query(k.qi) << " single");
            check_single(g, k.qi, k.v->single(0));
        } else {
            PBT_NOTE(c, "r" << k.reg << " kept view " << show_query(k.qi) << " " << form_names[form]);
            check_result(g, k.qi, k.v->run(static_cast<int>(form), wl), wl, form_names[form]);
        }
    }
    /// an entity with a component set out of the queried types
    void op_shape(mreg& g) {
        ment* e = any_entity(g);
        if (!e) {
            return;
        }
        auto& q = queries()[s.draw(queries().size())];
        for (int t : q.index) {
            if (t >= 0 && s.chance(3, 4) && fits(e->mask | (1u << t))) {
                u64 v = value();
                PBT_NOTE(c, "r" << reg_index(g) << " set type " << t << " of " << show(e->h) << " = " << v);
                ops[t]->set_move(*g.r, e->h, v);
                e->put(t, ops[t]->canon(v));
            }
        }
    }
};

void case_view(pbt::ctx& c) {
    auto& s = c.src;
    viewing m(c, s.chance(1, 5) ? 2 : 1);
    m.choose_types(true);
    for (int t : { 0, 12, 15 }) {
        if (s.chance(1, 2) && std::find(m.act.begin(), m.act.end(), t) == m.act.end()) {
            m.act.push_back(t);
        }
    }
    m.check_state = false;
    m.max_entities = 1000;
    static const std::vector<std::vector<unsigned>> profiles{
        // create bulk set remove destroy bulkdestroy transfer shape query keep use
        { 6, 2, 4, 3, 3, 1, 1, 4, 10, 1, 4 },
        { 3, 1, 6, 3, 2, 0, 1, 8, 12, 1, 3 },
        { 4, 3, 2, 1, 5, 3, 1, 2, 6, 2, 6 },
    };
    auto w = profiles[s.draw(profiles.size())];
    s.set_len(4 + s.small(60));
    while (s.more()) {
        c.steps++;
        auto& g = m.reg();
        switch (s.weighted(w)) {
        case 0:
            m.op_create(g);
            break;
        case 1:
            m.op_bulk_create(g);
            break;
        case 2:
            m.op_set(g);
            break;
        case 3:
            m.op_remove(g);
            break;
        case 4:
            m.op_destroy(g);
            break;
        case 5:
            m.op_bulk_destroy(g);
            break;
        case 6:
            m.op_transfer(g, m.reg(), static_cast<int>(s.draw(3)));
            break;
        case 7:
            m.op_shape(g);
            break;
        case 8:
            m.op_query(g);
            break;
        case 9:
            m.op_keep(g);
            break;
        default:
            m.op_use_kept();
        }
    }
    m.check_state = true;
    for (auto& g : m.regs) {
        for (int k = 0; k < 3; k++) {
            m.op_query(g);
        }
        m.op_use_kept();
        m.verify_all(g);
    }
    m.finish_labels();
    c.label("queries with matches", m.nonempty);
    c.label("queries over several archetypes", m.multi_arch);
    c.label("values written through views", m.writes);
    c.label("uses of kept views", m.reused);
    if (m.nonempty >= 1 && (m.multi_arch >= 1 || m.writes >= 1 || m.reused >= 1)) {
        c.nontrivial();
    }
}
pbt::registrar r1({ "C04", "view", case_view, 80000, 1500000,
    "random histories interleaved with 24 component queries (1-4 components, const and mutable, with and without the "
    "handle) in eight forms (range, callback, chunks, chunk iterators, registry.view, const view, registry.each, single), "
    "on fresh views and on views kept across changes; reported reference addresses must be exactly those of the matching "
    "entities of the model, written values must be read back; non-trivial: a query with matches, and a query over several "
    "archetypes, a write through a view or the reuse of a kept view" });
} // namespace
} // namespace rt
