// C17: component sets and component metadata sets against std::set.
#include <bits/stdc++.h>
#include <co_ecs/component.hpp>
#include <pbt.hpp>

namespace ct {
namespace {
using co_ecs::component_id_t;
using u64 = std::uint64_t;
template<int I>
struct comp {
    char pad[I % 7 + 1];
};
constexpr int ntypes = 70;

struct typed {
    component_id_t id;
    co_ecs::component_meta meta;
    void (*ins)(co_ecs::component_set&);
    void (*del)(co_ecs::component_set&);
    bool (*has)(const co_ecs::component_set&);
    void (*mins)(co_ecs::component_meta_set&);
    void (*mdel)(co_ecs::component_meta_set&);
    bool (*mhas)(const co_ecs::component_meta_set&);
};
template<int I>
typed mk_typed() {
    using C = comp<I>;
    return { co_ecs::component_id::value<C>, co_ecs::component_meta::of<C>(),
        [](co_ecs::component_set& s) { s.insert<C>(); }, [](co_ecs::component_set& s) { s.erase<C>(); },
        [](const co_ecs::component_set& s) { return s.contains<C>(); },
        [](co_ecs::component_meta_set& s) { s.insert<C>(); }, [](co_ecs::component_meta_set& s) { s.erase<C>(); },
        [](const co_ecs::component_meta_set& s) { return s.contains<C>(); } };
}
template<int... I>
std::vector<typed> mk_all(std::integer_sequence<int, I...>) {
    return { mk_typed<I>()... };
}
std::vector<typed>& types() {
    static auto t = mk_all(std::make_integer_sequence<int, ntypes>{});
    return t;
}

struct machine {
    pbt::ctx& c;
    pbt::source& s;
    struct slot {
        co_ecs::component_set set;
        std::set<u64> model;
    };
    struct mslot {
        co_ecs::component_meta_set set;
        std::map<u64, const co_ecs::type_meta*> model;
    };
    std::vector<slot> sets;
    std::vector<mslot> msets;
    std::vector<u64> pool; // ids in use
    std::size_t equal_pairs{}, erased{}, far{};

    explicit machine(pbt::ctx& c) : c(c), s(c.src), sets(2 + s.draw(3)), msets(1 + s.draw(3)) {
        auto n = 2 + s.draw(6);
        for (u64 i = 0; i < n; i++) {
            switch (s.weighted({ 4, 3, 3, 1, 1 })) {
            case 0: pool.push_back(s.draw(8)); break;
            case 1: pool.push_back(s.draw(ntypes)); break;
            case 2: pool.push_back(64 * s.draw(5) + (s.chance(1, 2) ? 63 : s.draw(2))); break;
            case 3: pool.push_back(s.draw(5000)); break;
            default: pool.push_back(s.draw(3000000)); far++;
            }
        }
    }
    u64 id() {
        return pool[s.draw(pool.size())];
    }
    const typed* type_of(u64 i) {
        for (auto& t : types()) {
            if (t.id == i) {
                return &t;
            }
        }
        return nullptr;
    }
    template<typename V>
    auto index(V& v, typename V::value_type& x) {
        return &x - v.data();
    }
    void op_set(slot& x) {
        auto i = id();
        auto* t = type_of(i);
        bool ty = t && s.chance(1, 2);
        auto n = index(sets, x);
        switch (s.weighted({ 6, 5, 1, 1, 1, 1 })) {
        case 0:
            PBT_NOTE(c, "s" << n << (ty ? ".insert<T>() " : ".insert ") << i);
            ty ? t->ins(x.set) : x.set.insert(static_cast<component_id_t>(i));
            x.model.insert(i);
            break;
        case 1:
            PBT_NOTE(c, "s" << n << (ty ? ".erase<T>() " : ".erase ") << i);
            ty ? t->del(x.set) : x.set.erase(static_cast<component_id_t>(i));
            erased += x.model.erase(i);
            break;
        case 2:
            PBT_NOTE(c, "s" << n << ".clear()");
            x.set.clear();
            x.model.clear();
            break;
        case 3: {
            auto& y = sets[s.draw(sets.size())];
            PBT_NOTE(c, "s" << n << " = s" << index(sets, y));
            x.set = std::as_const(y.set);
            x.model = std::set(y.model);
            break;
        }
        case 4: {
            auto& y = msets[s.draw(msets.size())];
            PBT_NOTE(c, "s" << n << " = ids of ms" << index(msets, y));
            x.set = y.set.ids();
            x.model.clear();
            for (auto& [k, v] : y.model) {
                x.model.insert(k);
            }
            break;
        }
        default:
            PBT_NOTE(c, "s" << n << " = create<T3, T64, T1>()");
            x.set = co_ecs::component_set::create<comp<3>, comp<64>, comp<1>>();
            x.model = { types()[3].id, types()[64].id, types()[1].id };
        }
    }
    void op_meta(mslot& x) {
        auto i = id();
        auto* t = type_of(i);
        bool ty = t && s.chance(1, 2);
        auto n = index(msets, x);
        switch (s.weighted({ 6, 5, 1, 1 })) {
        case 0: {
            // metadata under an id: the type of that id, or any type for ids that belong to none
            auto m = t ? t->meta : co_ecs::component_meta{ static_cast<component_id_t>(i), types()[i % ntypes].meta.type };
            PBT_NOTE(c, "ms" << n << (ty ? ".insert<T>() " : ".insert ") << i);
            ty ? t->mins(x.set) : x.set.insert(m);
            x.model.emplace(i, m.type);
            break;
        }
        case 1:
            PBT_NOTE(c, "ms" << n << (ty ? ".erase<T>() " : ".erase ") << i);
            ty ? t->mdel(x.set) : x.set.erase(static_cast<component_id_t>(i));
            erased += x.model.erase(i);
            break;
        case 2: {
            auto& y = msets[s.draw(msets.size())];
            PBT_NOTE(c, "ms" << n << " = ms" << index(msets, y));
            x.set = std::as_const(y.set);
            x.model = std::map(y.model);
            break;
        }
        default:
            PBT_NOTE(c, "ms" << n << " = create<T2, T63, T65>()");
            x.set = co_ecs::component_meta_set::create<comp<2>, comp<63>, comp<65>>();
            x.model.clear();
            for (int q : { 2, 63, 65 }) {
                x.model.emplace(types()[q].id, types()[q].meta.type);
            }
        }
    }
    void probe(u64 i, auto&& f) {
        f(i);
        f(i + 1);
        f(i ^ 64);
        f(i / 2);
        if (i) {
            f(i - 1);
        }
    }
    void check() {
        co_ecs::component_set_hasher h;
        for (auto& x : sets) {
            auto n = index(sets, x);
            for (auto i : pool) {
                probe(i, [&](u64 j) {
                    PBT_CHECK(x.set.contains(static_cast<component_id_t>(j)) == (x.model.count(j) != 0),
                        "s" << n << ".contains(" << j << ") is " << !x.model.count(j));
                });
                if (auto* t = type_of(i)) {
                    PBT_CHECK(t->has(x.set) == (x.model.count(i) != 0), "s" << n << ".contains<T>() of id " << i << " is wrong");
                }
            }
            PBT_CHECK(!x.set.contains(co_ecs::invalid_component_id), "s" << n << " contains the invalid id");
        }
        for (std::size_t a = 0; a < sets.size(); a++) {
            for (std::size_t b = 0; b <= a; b++) {
                bool want = sets[a].model == sets[b].model;
                auto &sa = sets[a].set, &sb = sets[b].set;
                PBT_CHECK((sa == sb) == want && (sb == sa) == want && (sa != sb) == !want,
                    "s" << a << " and s" << b << " compare " << (want ? "different though they have the same members" : "equal though their members differ"));
                if (want) {
                    PBT_CHECK(h(sa) == h(sb), "s" << a << " and s" << b << " are equal and hash differently");
                    equal_pairs += a != b && sets[a].model.size() > 1;
                }
            }
        }
        for (auto& x : msets) {
            auto n = index(msets, x);
            PBT_CHECK(x.set.size() == x.model.size(), "ms" << n << ".size() is " << x.set.size() << " instead of " << x.model.size());
            std::set<u64> seen;
            auto see = [&](const co_ecs::component_meta& m) {
                auto e = x.model.find(m.id);
                PBT_CHECK(e != x.model.end(), "ms" << n << ": iteration meets id " << m.id << ", which is no member");
                PBT_CHECK(e->second == m.type, "ms" << n << ": iteration meets id " << m.id << " with the metadata of another type");
                PBT_CHECK(seen.insert(m.id).second, "ms" << n << ": iteration meets id " << m.id << " twice");
            };
            if (s.chance(1, 2)) {
                for (auto& m : x.set) {
                    see(m);
                }
            } else {
                for (auto it = x.set.cbegin(); it != x.set.cend(); ++it) {
                    see(*it);
                }
            }
            PBT_CHECK(seen.size() == x.model.size(), "ms" << n << ": iteration meets " << seen.size() << " of " << x.model.size() << " members");
            for (auto i : pool) {
                probe(i, [&](u64 j) {
                    bool want = x.model.count(j) != 0;
                    PBT_CHECK(x.set.contains(static_cast<component_id_t>(j)) == want && x.set.ids().contains(static_cast<component_id_t>(j)) == want,
                        "ms" << n << ".contains(" << j << ") is " << !want);
                });
                if (auto* t = type_of(i)) {
                    PBT_CHECK(t->mhas(x.set) == (x.model.count(i) != 0), "ms" << n << ".contains<T>() of id " << i << " is wrong");
                }
            }
        }
        for (std::size_t a = 0; a < msets.size(); a++) {
            std::set<u64> ia;
            for (auto& [k, v] : msets[a].model) {
                ia.insert(k);
            }
            for (std::size_t b = 0; b <= a; b++) {
                std::set<u64> ib;
                for (auto& [k, v] : msets[b].model) {
                    ib.insert(k);
                }
                PBT_CHECK((msets[a].set == msets[b].set) == (ia == ib) && (msets[a].set.ids() == msets[b].set.ids()) == (ia == ib),
                    "ms" << a << " and ms" << b << " compare wrongly");
            }
            for (auto& x : sets) {
                PBT_CHECK((x.set == msets[a].set.ids()) == (x.model == ia), "s" << index(sets, x) << " and the ids of ms" << a << " compare wrongly");
                PBT_CHECK(!(x.model == ia) || h(x.set) == h(msets[a].set.ids()), "s" << index(sets, x) << " and the ids of ms" << a << " hash differently");
            }
        }
    }
};

void case_sets(pbt::ctx& c) {
    machine m(c);
    auto& s = c.src;
    s.set_len(3 + s.small(50));
    while (s.more()) {
        c.steps++;
        if (s.chance(2, 3)) {
            m.op_set(m.sets[s.draw(m.sets.size())]);
        } else {
            m.op_meta(m.msets[s.draw(m.msets.size())]);
        }
        m.check();
    }
    c.label("erased members", m.erased);
    c.label("equal pairs of sets with 2+ members", m.equal_pairs);
    if (m.far) {
        c.label("case: ids above 5000");
    }
    if (m.erased && m.equal_pairs) {
        c.nontrivial();
    }
}
pbt::registrar r1({ "C17", "component_sets", case_sets, 400000, 8000000,
    "random inserts, erases, clears, copies over several component sets and metadata sets with ids from 0 to 3 million "
    "(clustered at 64-bit block edges, small pools so that equal sets arise in different ways), compared after every step "
    "with std::set, all pairs checked for equality and equal hashes; non-trivial: a member was erased and two sets with at "
    "least 2 members became equal" });
} // namespace
} // namespace ct
