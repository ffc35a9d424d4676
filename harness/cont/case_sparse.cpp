// C16: the sparse map against a mathematical map.
#include <bits/stdc++.h>
#include "tracked.hpp"
#include <co_ecs/detail/sparse_map.hpp>

namespace ct {
namespace {
template<typename V>
struct vt;
template<>
struct vt<obj<3>> {
    static constexpr bool copyable = true, tracked = true;
    static obj<3> mk(int v) {
        return obj<3>(v);
    }
    static int rd(const obj<3>& o) {
        o.used("read");
        return o.v;
    }
};
template<>
struct vt<std::unique_ptr<int>> {
    static constexpr bool copyable = false, tracked = false;
    static std::unique_ptr<int> mk(int v) {
        return v ? std::make_unique<int>(v) : nullptr;
    }
    static int rd(const std::unique_ptr<int>& o) {
        return o ? *o : 0;
    }
};
template<>
struct vt<std::string> {
    static constexpr bool copyable = true, tracked = false;
    static std::string mk(int v) {
        return v ? "some text that is not stored inline " + std::to_string(v) : "";
    }
    static int rd(const std::string& o) {
        return o.empty() ? 0 : std::atoi(o.c_str() + 36);
    }
};

template<typename K, typename V>
struct machine {
    using map = co_ecs::detail::sparse_map<K, V>;
    using T = vt<V>;
    struct slot {
        std::unique_ptr<map> m;
        std::map<u64, int> model;
    };
    pbt::ctx& c;
    pbt::source& s;
    std::vector<slot> maps;
    u64 range{};
    int next{ 1 };
    std::size_t erased{}, maxsize{}, own_args{};
    bool backwards{}, whole_domain{}, reused_moved{}, moved_to_itself{};

    explicit machine(pbt::ctx& c) : c(c), s(c.src) {
        maps.resize(1 + s.draw(2));
        static const u64 ranges[]{ 5, 20, 100, 256, 3000, 65536, 300000 };
        range = ranges[s.weighted({ 3, 4, 4, 4, 2, 1, 1 })];
        if constexpr (sizeof(K) < 8) {
            range = std::min<u64>(range, u64{ std::numeric_limits<K>::max() } + 1);
        }
        for (auto& x : maps) {
            fresh(x);
        }
    }
    std::size_t index(slot& x) {
        return static_cast<std::size_t>(&x - maps.data());
    }
    u64 key() {
        switch (s.weighted({ 8, 1, 1 })) {
        case 1: return range - 1;
        case 2: return s.draw(std::min<u64>(range, 4));
        default: return s.draw(range);
        }
    }
    u64 present(slot& x) {
        if (x.model.empty()) {
            return key();
        }
        auto it = x.model.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(s.draw(std::min<std::size_t>(x.model.size(), 64))));
        return it->first;
    }
    u64 some_key(slot& x) {
        return s.chance(1, 3) ? present(x) : key();
    }
    int val() {
        return next++;
    }
    static K k_(u64 k) {
        return static_cast<K>(k);
    }
    void fresh(slot& x) {
        x.model.clear();
        if constexpr (T::copyable) {
            if (s.chance(1, 3)) {
                u64 a = key(), b = key(), d = key();
                if (a != b && b != d && a != d) {
                    int p = val(), q = val(), r = val();
                    PBT_NOTE(c, "m" << index(x) << " = map{" << a << ", " << b << ", " << d << "}");
                    x.m = std::make_unique<map>(std::initializer_list<typename map::value_type>{
                        { k_(a), T::mk(p) }, { k_(b), T::mk(q) }, { k_(d), T::mk(r) } });
                    x.model = { { a, p }, { b, q }, { d, r } };
                    return;
                }
            }
        }
        PBT_NOTE(c, "m" << index(x) << " = map()");
        x.m = std::make_unique<map>();
    }
    template<typename It>
    void points_at(slot& x, It it, u64 k, const char* how) {
        PBT_CHECK(it != x.m->end(), how << " of key " << k << " returned end()");
        PBT_CHECK(it->first == k_(k), how << " of key " << k << " returned a position with key " << u64{ it->first });
        PBT_CHECK(T::rd(it->second) == x.model.at(k), how << " of key " << k << " returned a position with value "
                                                          << T::rd(it->second) << " instead of " << x.model.at(k));
        PBT_CHECK(it == x.m->find(k_(k)), how << " of key " << k << " returned another position than find");
    }
    void note_key(slot& x, u64 k) {
        backwards = backwards || (!x.model.empty() && k < x.model.rbegin()->first && !x.model.count(k));
    }
    void op_insert(slot& x) {
        u64 k = some_key(x);
        int v = val();
        bool was = x.model.count(k) != 0;
        note_key(x, k);
        auto kind = s.draw(9);
        if (kind == 0 && !T::copyable) {
            kind = 1;
        }
        auto i = index(x);
        switch (kind) {
        case 0:
            if constexpr (T::copyable) {
                PBT_NOTE(c, "m" << i << ".insert(" << k << ", " << v << ")");
                typename map::value_type p(k_(k), T::mk(v));
                auto [it, f] = x.m->insert(p);
                x.model.emplace(k, v);
                PBT_CHECK(f == !was, "insert of key " << k << " reports inserted=" << f);
                points_at(x, it, k, "insert");
                PBT_CHECK(T::rd(p.second) == v, "insert changed its argument");
            }
            break;
        case 1:
        case 2: {
            PBT_NOTE(c, "m" << i << ".emplace(" << k << ", " << v << ")");
            auto [it, f] = x.m->emplace(k_(k), T::mk(v));
            x.model.emplace(k, v);
            PBT_CHECK(f == !was, "emplace of key " << k << " reports inserted=" << f);
            points_at(x, it, k, "emplace");
            break;
        }
        case 3: {
            PBT_NOTE(c, "m" << i << ".emplace(" << k << ")");
            auto [it, f] = x.m->emplace(k_(k));
            x.model.emplace(k, 0);
            PBT_CHECK(f == !was, "emplace of key " << k << " reports inserted=" << f);
            points_at(x, it, k, "emplace");
            break;
        }
        case 4: {
            PBT_NOTE(c, "m" << i << "[" << k << "]");
            auto& r = (*x.m)[k_(k)];
            x.model.emplace(k, 0);
            PBT_CHECK(T::rd(r) == x.model.at(k), "[" << k << "] refers to value " << T::rd(r) << " instead of " << x.model.at(k));
            break;
        }
        case 5: {
            // the argument is an element of the map itself
            u64 from = present(x);
            if (x.model.empty() || !x.model.count(from)) {
                break;
            }
            int fv = x.model.at(from);
            PBT_NOTE(c, "m" << i << ".emplace(" << k << ", m" << i << ".at(" << from << "))");
            auto& own = s.chance(1, 2) ? x.m->at(k_(from)) : x.m->find(k_(from))->second;
            if constexpr (T::copyable) {
                auto [it, f] = x.m->emplace(k_(k), std::as_const(own));
                x.model.emplace(k, fv);
                PBT_CHECK(f == !was, "emplace of key " << k << " reports inserted=" << f);
                points_at(x, it, k, "emplace of an own element");
            } else if (!was) {
                auto [it, f] = x.m->emplace(k_(k), std::move(own));
                x.model.emplace(k, fv);
                x.model[from] = 0;
                PBT_CHECK(f, "emplace of key " << k << " reports inserted=" << f);
                points_at(x, it, k, "emplace of an own element");
            }
            own_args++;
            break;
        }
        case 6: {
            // keys given by reference to a stored pair
            u64 from = present(x);
            if (x.model.empty() || !x.model.count(from)) {
                break;
            }
            auto it = x.m->find(k_(from));
            PBT_NOTE(c, "m" << i << ": use the key stored for " << from);
            PBT_CHECK(&x.m->at(it->first) == &it->second && &(*x.m)[it->first] == &it->second, "at(key of a stored pair) is elsewhere");
            if (s.chance(1, 2)) {
                auto n = x.m->erase(it->first);
                PBT_CHECK(n == 1, "erase(key of a stored pair) returned " << n);
                x.model.erase(from);
                erased++;
            } else if constexpr (T::copyable) {
                auto [jt, f] = x.m->insert(*it);
                PBT_CHECK(!f, "insert of an own pair reports inserted");
                points_at(x, jt, from, "insert of an own pair");
            }
            break;
        }
        default:
            PBT_NOTE(c, "m" << i << "[" << k << "] = " << v);
            (*x.m)[k_(k)] = T::mk(v);
            x.model[k] = v;
        }
    }
    void op_erase(slot& x) {
        u64 k = s.chance(3, 4) ? present(x) : key();
        PBT_NOTE(c, "m" << index(x) << ".erase(" << k << ")" << (x.model.count(k) ? "" : " (absent)"));
        auto n = x.m->erase(k_(k));
        auto e = x.model.erase(k);
        PBT_CHECK(n == e, "erase of key " << k << " returned " << n << " instead of " << e);
        erased += e;
    }
    void op_bulk(slot& x) {
        bool all = range <= 256 ? s.chance(1, 3) : s.chance(1, 40);
        u64 n = all ? range : 1 + s.small(100);
        u64 base = all ? 0 : key();
        bool ins = s.chance(2, 3), down = s.chance(1, 3);
        PBT_NOTE(c, "m" << index(x) << (ins ? " emplace " : " erase ") << n << " keys from " << base << (down ? " downwards" : ""));
        whole_domain = whole_domain || (all && ins && sizeof(K) <= 2 && range == u64{ std::numeric_limits<K>::max() } + 1);
        for (u64 i = 0; i < n; i++) {
            u64 k = (base + (down ? n - 1 - i : i)) % range;
            bool was = x.model.count(k) != 0;
            if (ins) {
                note_key(x, k);
                int v = val();
                auto [it, f] = x.m->emplace(k_(k), T::mk(v));
                x.model.emplace(k, v);
                PBT_CHECK(f == !was, "emplace of key " << k << " reports inserted=" << f);
                points_at(x, it, k, "emplace");
            } else {
                PBT_CHECK(x.m->erase(k_(k)) == (was ? 1u : 0u), "erase of key " << k << " returned the wrong count");
                erased += x.model.erase(k);
            }
            PBT_CHECK(x.m->size() == x.model.size(), "size() is " << x.m->size() << " instead of " << x.model.size());
        }
    }
    void op_write(slot& x) {
        if (x.model.empty()) {
            return;
        }
        u64 k = present(x);
        int v = val();
        PBT_NOTE(c, "m" << index(x) << " write " << v << " at " << k);
        if (s.chance(1, 2)) {
            x.m->at(k_(k)) = T::mk(v);
        } else {
            auto it = x.m->find(k_(k));
            PBT_CHECK(it != x.m->end(), "find of present key " << k << " returned end()");
            it->second = T::mk(v);
        }
        x.model[k] = v;
    }
    void op_whole(slot& x) {
        auto& y = maps[s.draw(maps.size())];
        auto i = index(x), j = index(y);
        switch (s.draw(9)) {
        case 0:
            PBT_NOTE(c, "m" << i << ".clear()");
            x.m->clear();
            x.model.clear();
            break;
        case 1: {
            auto n = s.draw(500);
            PBT_NOTE(c, "m" << i << ".reserve_dense(" << n << ")");
            x.m->reserve_dense(n);
            break;
        }
        case 2: {
            auto n = s.draw(500);
            PBT_NOTE(c, "m" << i << ".reserve_sparse(" << n << ")");
            x.m->reserve_sparse(n);
            break;
        }
        case 3:
            if constexpr (T::copyable) {
                PBT_NOTE(c, "m" << i << " = copy constructed from m" << j);
                x.m = std::make_unique<map>(std::as_const(*y.m));
                x.model = std::map(y.model);
            }
            break;
        case 4:
            if constexpr (T::copyable) {
                PBT_NOTE(c, "m" << i << " = m" << j);
                *x.m = std::as_const(*y.m);
                x.model = std::map(y.model);
            }
            break;
        case 5:
            if (&x != &y) {
                PBT_NOTE(c, "m" << i << " = move constructed from m" << j);
                x.m = std::make_unique<map>(std::move(*y.m));
                x.model = std::move(y.model);
                moved_from(y);
            }
            break;
        case 6:
            if (&x != &y) {
                PBT_NOTE(c, "m" << i << " = std::move(m" << j << ")");
                *x.m = std::move(*y.m);
                x.model = std::move(y.model);
                moved_from(y);
            } else {
                // what a map moved to itself contains is not specified, but it is a map
                PBT_NOTE(c, "m" << i << " = std::move(m" << i << ")");
                *x.m = std::move(*y.m);
                if (x.m->size() == 0) {
                    x.model.clear();
                }
                moved_to_itself = true;
            }
            break;
        case 7:
            PBT_NOTE(c, "std::swap(m" << i << ", m" << j << ")");
            std::swap(*x.m, *y.m);
            if (&x != &y) {
                std::swap(x.model, y.model);
            }
            break;
        default:
            fresh(x);
        }
        check(y);
    }
    void moved_from(slot& y) {
        y.model.clear();
        switch (s.draw(3)) {
        case 0:
            PBT_NOTE(c, "m" << index(y) << ".clear() after having been moved from");
            y.m->clear();
            reused_moved = true;
            break;
        case 1:
            PBT_NOTE(c, "m" << index(y) << " = map()");
            *y.m = map();
            break;
        default:
            fresh(y);
        }
    }
    void lookup(slot& x, u64 k) {
        auto e = x.model.find(k);
        bool want = e != x.model.end();
        auto& m = *x.m;
        const map& cm = m;
        PBT_CHECK(cm.contains(k_(k)) == want, "m" << index(x) << ".contains(" << k << ") is " << !want);
        auto it = m.find(k_(k));
        auto cit = cm.find(k_(k));
        PBT_CHECK((it != m.end()) == want && (cit != cm.end()) == want, "m" << index(x) << ".find(" << k << ") is wrong");
        if (!want) {
            int t = 0;
            try {
                (void)m.at(k_(k));
            } catch (const std::out_of_range&) {
                t++;
            }
            try {
                (void)cm.at(k_(k));
            } catch (const std::out_of_range&) {
                t++;
            }
            PBT_CHECK(t == 2, "m" << index(x) << ".at(" << k << ") of an absent key did not raise out_of_range");
            return;
        }
        PBT_CHECK(it->first == k_(k), "find(" << k << ") has key " << u64{ it->first });
        PBT_CHECK(T::rd(it->second) == e->second, "m" << index(x) << " maps " << k << " to " << T::rd(it->second) << " instead of "
                                                      << e->second);
        PBT_CHECK(&it->second == &cit->second && &it->second == &m.at(k_(k)) && &it->second == &cm.at(k_(k)),
            "the lookups of key " << k << " do not refer to the same element");
    }
    void check(slot& x) {
        auto& m = *x.m;
        const map& cm = m;
        if (!book().error.empty()) {
            PBT_FAIL(book().error);
        }
        PBT_CHECK(m.size() == x.model.size(), "m" << index(x) << ".size() is " << m.size() << " instead of " << x.model.size());
        PBT_CHECK(m.empty() == x.model.empty(), "m" << index(x) << ".empty() is " << m.empty());
        maxsize = std::max(maxsize, x.model.size());
        if (x.model.size() < 80 || s.chance(1, 8)) {
            std::unordered_set<u64> seen;
            auto see = [&](auto& kv) {
                auto e = x.model.find(u64{ kv.first });
                PBT_CHECK(e != x.model.end(), "m" << index(x) << ": iteration meets key " << u64{ kv.first }
                                                  << ", which the map does not hold");
                PBT_CHECK(T::rd(kv.second) == e->second, "m" << index(x) << ": iteration meets " << e->first << " -> "
                                                             << T::rd(kv.second) << " instead of " << e->second);
                PBT_CHECK(seen.insert(e->first).second, "m" << index(x) << ": iteration meets key " << e->first << " twice");
            };
            switch (s.draw(3)) {
            case 0:
                for (auto& kv : m) {
                    see(kv);
                }
                break;
            case 1:
                for (const auto& kv : cm) {
                    see(kv);
                }
                break;
            default:
                for (auto it = cm.cbegin(); it != cm.cend(); it++) {
                    see(*it);
                }
            }
            PBT_CHECK(seen.size() == x.model.size(), "m" << index(x) << ": iteration meets " << seen.size() << " of "
                                                         << x.model.size() << " keys");
        }
        if (x.model.size() < 24) {
            for (auto& [k, v] : x.model) {
                lookup(x, k);
            }
        } else {
            for (int i = 0; i < 5; i++) {
                lookup(x, present(x));
            }
        }
        for (int i = 0; i < 3; i++) {
            lookup(x, key());
        }
        if constexpr (sizeof(K) < 8) {
            lookup(x, std::numeric_limits<K>::max());
        } else {
            lookup(x, u64{ 1 } << 40); // an absent key far beyond the table
        }
        if (T::tracked && std::all_of(maps.begin(), maps.end(), [](auto& y) { return y.m != nullptr; })) {
            std::size_t n = 0;
            for (auto& y : maps) {
                n += y.model.size();
            }
            PBT_CHECK(book().live.size() == n, "the maps hold " << n << " values, but " << book().live.size() << " are alive");
        }
    }
    void run() {
        static const std::vector<std::vector<unsigned>> profiles{
            // insert write erase bulk whole
            { 8, 1, 4, 1, 1 },
            { 4, 1, 8, 2, 2 },
            { 3, 1, 2, 4, 3 },
        };
        auto w = profiles[s.draw(profiles.size())];
        s.set_len(3 + s.small(range > 10000 ? 25 : 80));
        while (s.more()) {
            c.steps++;
            auto& x = maps[s.draw(maps.size())];
            switch (s.weighted(w)) {
            case 0: op_insert(x); break;
            case 1: op_write(x); break;
            case 2: op_erase(x); break;
            case 3: op_bulk(x); break;
            default: op_whole(x);
            }
            check(x);
        }
        for (auto& x : maps) {
            check(x);
            if (x.model.size() < 2000) {
                for (auto& [k, v] : x.model) {
                    lookup(x, k);
                }
            }
        }
        for (auto& x : maps) {
            x.m.reset();
            x.model.clear();
        }
        if (!book().error.empty()) {
            PBT_FAIL(book().error);
        }
        PBT_CHECK(book().live.empty(), book().live.size() << " values are still alive after all maps are gone");
        c.label("erased", erased);
        if (whole_domain) {
            c.label("case: every key of the key type present at once");
        }
        if (reused_moved) {
            c.label("case: moved-from map cleared and used again");
        }
        if (moved_to_itself) {
            c.label("case: map moved to itself");
        }
        if (maxsize >= 4 && erased >= 2 && backwards) {
            c.nontrivial();
        }
    }
};
void case_sparse(pbt::ctx& c) {
    book().reset();
    switch (c.src.weighted({ 3, 1, 1, 2, 3, 1, 2 })) {
    case 0: machine<std::uint8_t, obj<3>>(c).run(); break;
    case 1: machine<std::uint8_t, std::string>(c).run(); break;
    case 2: machine<std::uint16_t, std::unique_ptr<int>>(c).run(); break;
    case 3: machine<std::uint16_t, obj<3>>(c).run(); break;
    case 4: machine<std::uint32_t, obj<3>>(c).run(); break;
    case 5: machine<std::uint64_t, std::unique_ptr<int>>(c).run(); break;
    default: machine<std::uint64_t, obj<3>>(c).run();
    }
}
pbt::registrar r1({ "C16", "sparse_map", case_sparse, 120000, 6000000,
    "random operation sequences over 1-2 sparse maps with 8/16/32/64-bit keys and tracked, move-only or string values, "
    "compared after every step with std::map; non-trivial: at least 4 pairs at once, 2 erased, and a key inserted below a "
    "present one" });
} // namespace
} // namespace ct
