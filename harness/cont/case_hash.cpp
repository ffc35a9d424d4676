// C15: the hash map against a mathematical map.
#include <bits/stdc++.h>
#include "tracked.hpp"
#include <co_ecs/detail/hash_map.hpp>

namespace ct {
namespace {

struct params {
    int hash_mode{};
    int mask{ -1 };
    bool operator==(const params&) const = default;
};

/// hash and equality carry the same parameters; equality looks only at the bits of the mask
struct whash {
    params p{};
    std::size_t operator()(int k) const {
        auto x = static_cast<std::size_t>(static_cast<unsigned>(k & p.mask));
        switch (p.hash_mode) {
        case 0: return x;
        case 1: return x & 7;
        case 2: return 5;
        case 3: return x << 4;
        case 4: return x * 0x9e3779b97f4a7c15ull;
        case 5: return x / 4;
        case 6: return ~std::size_t{} - x;
        default: return x % 3 + (x << 40);
        }
    }
    std::size_t operator()(const obj<1>& k) const {
        k.used("hashed");
        return (*this)(k.v);
    }
};
struct weq {
    params p{};
    bool operator()(const obj<1>& a, const obj<1>& b) const {
        a.used("compared");
        b.used("compared");
        return (a.v & p.mask) == (b.v & p.mask);
    }
    bool operator()(const obj<1>& a, int b) const {
        a.used("compared");
        return (a.v & p.mask) == (b & p.mask);
    }
};

struct shash {
    params p{};
    std::size_t operator()(const std::string& s) const {
        return std::hash<std::string>{}(s);
    }
};
struct seq {
    params p{};
    bool operator()(const std::string& a, const std::string& b) const {
        return a == b;
    }
};

// --- flavours ---------------------------------------------------------------------------------------------------
struct tracked_flavour {
    static constexpr bool copyable = true;
    static constexpr bool functors = true;
    using K = obj<1>;
    using V = obj<2>;
    using map = co_ecs::detail::hash_map<K, V, whash, weq, count_alloc<std::pair<K, V>>>;
    static K key(int k) {
        return K(k);
    }
    static V val(int v) {
        return V(v);
    }
    static int rk(const K& k) {
        k.used("read");
        return k.v;
    }
    static int rv(const V& v) {
        v.used("read");
        return v.v;
    }
    static int absent() {
        return 0;
    }
};
struct moveonly_flavour {
    static constexpr bool copyable = false;
    static constexpr bool functors = false;
    using K = std::string;
    using V = std::unique_ptr<int>;
    using map = co_ecs::detail::hash_map<K, V>;
    static K key(int k) {
        return (k & 1 ? "" : "a longer prefix that is not stored inline ") + std::to_string(k);
    }
    static V val(int v) {
        return v == 0 ? nullptr : std::make_unique<int>(v);
    }
    static int rk(const K& k) {
        auto p = k.rfind(' ');
        return std::atoi(k.c_str() + (p == std::string::npos ? 0 : p + 1));
    }
    static int rv(const V& v) {
        return v ? *v : 0;
    }
};
struct plain_flavour {
    static constexpr bool copyable = true;
    static constexpr bool functors = false;
    using K = u64;
    using V = std::string;
    using map = co_ecs::detail::hash_map<K, V>;
    static K key(int k) {
        return static_cast<u64>(k);
    }
    static V val(int v) {
        return v == 0 ? "" : "value number " + std::to_string(v);
    }
    static int rk(const K& k) {
        return static_cast<int>(k);
    }
    static int rv(const V& v) {
        return v.empty() ? 0 : std::atoi(v.c_str() + 13);
    }
};

template<typename F>
struct machine {
    using map = typename F::map;
    using K = typename F::K;
    using V = typename F::V;
    struct entry {
        int key;
        int val;
    };
    struct slot {
        std::unique_ptr<map> m;
        std::map<int, entry> model; // by masked key
        params p;
        bool unspecified{};
    };
    pbt::ctx& c;
    pbt::source& s;
    std::vector<slot> maps;
    int range{}, stride{};
    bool same_params{};
    int next_val{ 1 };
    std::size_t grew{}, erased{}, maxsize{}, copies{};

    explicit machine(pbt::ctx& c) : c(c), s(c.src) {
        maps.resize(1 + s.draw(3));
        static const int ranges[]{ 6, 20, 60, 200, 1000, 4000 };
        range = ranges[s.weighted({ 2, 4, 4, 3, 2, 1 })];
        static const int strides[]{ 1, 16, 3, 64, 257, 1024 };
        stride = strides[s.weighted({ 5, 3, 1, 1, 1, 1 })];
        same_params = s.chance(1, 2);
        for (auto& x : maps) {
            fresh(x);
        }
    }
    std::size_t index(slot& x) {
        return static_cast<std::size_t>(&x - maps.data());
    }
    int key() {
        return static_cast<int>(s.draw(static_cast<u64>(range))) * stride;
    }
    int present(slot& x) {
        if (x.model.empty()) {
            return key();
        }
        auto it = x.model.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(s.draw(std::min<std::size_t>(x.model.size(), 64))));
        return it->second.key;
    }
    int some_key(slot& x) {
        return s.chance(1, 3) ? present(x) : key();
    }
    int val() {
        return next_val++;
    }
    params make_params() {
        if (!F::functors) {
            return {};
        }
        if (same_params && maps[0].m) {
            return maps[0].p;
        }
        params p;
        p.hash_mode = static_cast<int>(s.draw(8));
        static const int masks[]{ -1, ~1, 0xff, ~0x30 };
        p.mask = masks[s.weighted({ 5, 2, 1, 1 })];
        return p;
    }
    int mk(slot& x, int k) {
        return F::functors ? (k & x.p.mask) : k;
    }
    static auto& H(params& p) {
        static thread_local std::conditional_t<F::functors, whash, std::hash<K>> h;
        if constexpr (F::functors) {
            h.p = p;
        }
        return h;
    }
    static auto& E(params& p) {
        static thread_local std::conditional_t<F::functors, weq, std::equal_to<K>> e;
        if constexpr (F::functors) {
            e.p = p;
        }
        return e;
    }
    using A = typename map::allocator_type;
    using value_type = typename map::value_type;

    std::vector<value_type> make_values(std::map<int, entry>& model, params p, std::size_t n) {
        std::vector<value_type> v;
        v.reserve(n);
        for (std::size_t i = 0; i < n; i++) {
            int k = key(), x = val();
            int m = F::functors ? (k & p.mask) : k;
            if (model.count(m)) {
                continue; // which of two equal keys a constructor keeps is left open
            }
            model[m] = { k, x };
            v.emplace_back(F::key(k), F::val(x));
        }
        return v;
    }
    /// replace the map of a slot by a newly constructed one
    void fresh(slot& x) {
        auto p = make_params();
        auto i = index(x);
        x.model.clear();
        x.unspecified = false;
        x.p = p;
        std::size_t bc = std::size_t{ 2 } << s.draw(8);
        auto how = s.draw(5);
        if (F::functors && (how == 0 || how == 3) && !(p == params{})) {
            how = 1;
        }
        switch (how) {
        case 0:
            PBT_NOTE(c, "m" << i << " = map()");
            x.m = std::make_unique<map>();
            break;
        case 1:
            PBT_NOTE(c, "m" << i << " = map(buckets " << bc << ", hash " << p.hash_mode << ", mask " << p.mask << ")");
            x.m = std::make_unique<map>(bc, H(p), E(p));
            break;
        case 2:
            if constexpr (F::copyable) {
                auto v = make_values(x.model, p, s.small(60));
                PBT_NOTE(c, "m" << i << " = map(range of " << v.size() << ", buckets " << bc << ", hash " << p.hash_mode
                                << ", mask " << p.mask << ")");
                x.m = std::make_unique<map>(v.cbegin(), v.cend(), bc, H(p), E(p), A());
                break;
            }
            [[fallthrough]];
        case 3:
            if constexpr (F::copyable) {
                auto v = make_values(x.model, p, s.small(60));
                PBT_NOTE(c, "m" << i << " = map(range of " << v.size() << ")");
                x.m = F::functors ? std::make_unique<map>(v.cbegin(), v.cend(), map::default_bucket_count, H(p), E(p), A())
                                  : std::make_unique<map>(v.cbegin(), v.cend());
                break;
            } else {
                auto v = make_values(x.model, p, s.small(60));
                PBT_NOTE(c, "m" << i << " = map(move range of " << v.size() << ")");
                x.m = std::make_unique<map>(
                    std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()), bc, H(p), E(p), A());
                break;
            }
        default:
            if constexpr (F::copyable) {
                int k1 = key(), k2 = key(), k3 = key();
                int m1 = F::functors ? (k1 & p.mask) : k1, m2 = F::functors ? (k2 & p.mask) : k2,
                    m3 = F::functors ? (k3 & p.mask) : k3;
                if (m1 == m2 || m2 == m3 || m1 == m3) {
                    x.m = std::make_unique<map>(bc, H(p), E(p), A());
                    break;
                }
                int a = val(), b = val(), d = val();
                PBT_NOTE(c, "m" << i << " = map({" << k1 << "," << k2 << "," << k3 << "}, buckets " << bc << ", hash "
                                << p.hash_mode << ", mask " << p.mask << ")");
                x.m = std::make_unique<map>(std::initializer_list<value_type>{ { F::key(k1), F::val(a) },
                                                { F::key(k2), F::val(b) }, { F::key(k3), F::val(d) } },
                    bc, H(p), E(p), A());
                x.model[m1] = { k1, a };
                x.model[m2] = { k2, b };
                x.model[m3] = { k3, d };
            } else {
                x.m = std::make_unique<map>(bc, H(p), E(p), A());
            }
        }
    }

    template<typename It>
    void points_at(slot& x, It it, int k, const char* how) {
        auto e = x.model.at(mk(x, k));
        PBT_CHECK(it != x.m->end(), how << " of key " << k << " returned end()");
        PBT_CHECK(F::rk(it->first) == e.key, how << " of key " << k << " returned a position with key " << F::rk(it->first));
        PBT_CHECK(F::rv((*it).second) == e.val,
            how << " of key " << k << " returned a position with value " << F::rv(it->second) << " instead of " << e.val);
        PBT_CHECK(it == x.m->find(F::key(k)), how << " of key " << k << " returned another position than find");
    }
    void inserted(slot& x, int k, bool flag, bool was, const char* how) {
        PBT_CHECK(flag == !was, how << " of key " << k << " reports inserted=" << flag << " though the key was "
                                    << (was ? "present" : "absent"));
    }

    void op_insert(slot& x) {
        auto& m = *x.m;
        int k = some_key(x), v = val();
        auto q = mk(x, k);
        bool was = x.model.count(q) != 0;
        auto kind = s.draw(10);
        if (!F::copyable && (kind == 0 || kind == 2 || kind == 3)) {
            kind = 4;
        }
        auto ins = [&] { x.model.emplace(q, entry{ k, v }); };
        auto i = index(x);
        switch (kind) {
        case 0:
            if constexpr (F::copyable) {
                PBT_NOTE(c, "m" << i << ".insert(" << k << ", " << v << ")");
                value_type p(F::key(k), F::val(v));
                auto [it, f] = m.insert(p);
                ins();
                inserted(x, k, f, was, "insert");
                points_at(x, it, k, "insert");
                PBT_CHECK(F::rv(p.second) == v, "insert(const&) changed its argument");
            }
            break;
        case 1: {
            PBT_NOTE(c, "m" << i << ".insert(hint, " << k << ", " << v << ")");
            auto it = m.insert(m.begin(), value_type(F::key(k), F::val(v)));
            ins();
            points_at(x, it, k, "insert with hint");
            break;
        }
        case 2:
            if constexpr (F::copyable) {
                PBT_NOTE(c, "m" << i << ".insert(hint, const " << k << ", " << v << ")");
                value_type p(F::key(k), F::val(v));
                auto it = m.insert(m.end(), p);
                ins();
                points_at(x, it, k, "insert with hint");
            }
            break;
        case 3:
            if constexpr (F::copyable) {
                PBT_NOTE(c, "m" << i << ".insert_or_assign(" << k << ", " << v << ")");
                value_type p(F::key(k), F::val(v));
                auto [it, f] = m.insert_or_assign(p);
                ins();
                x.model[q].val = v;
                inserted(x, k, f, was, "insert_or_assign");
                points_at(x, it, k, "insert_or_assign");
            }
            break;
        case 4: {
            PBT_NOTE(c, "m" << i << ".emplace(" << k << ", " << v << ")");
            auto [it, f] = m.emplace(F::key(k), F::val(v));
            ins();
            inserted(x, k, f, was, "emplace");
            points_at(x, it, k, "emplace");
            break;
        }
        case 5: {
            PBT_NOTE(c, "m" << i << ".emplace(piecewise " << k << ", " << v << ")");
            auto [it, f] = m.emplace(
                std::piecewise_construct, std::forward_as_tuple(F::key(k)), std::forward_as_tuple(F::val(v)));
            ins();
            inserted(x, k, f, was, "emplace");
            points_at(x, it, k, "emplace");
            break;
        }
        case 6: {
            PBT_NOTE(c, "m" << i << "[" << k << "]");
            auto& r = m[F::key(k)];
            x.model.emplace(q, entry{ k, 0 });
            PBT_CHECK(F::rv(r) == x.model[q].val, "[" << k << "] refers to value " << F::rv(r) << " instead of " << x.model[q].val);
            break;
        }
        default:
            PBT_NOTE(c, "m" << i << "[" << k << "] = " << v);
            m[F::key(k)] = F::val(v);
            x.model.emplace(q, entry{ k, v });
            x.model[q].val = v;
        }
    }
    /// arguments that refer to an element of the map itself
    void op_alias(slot& x) {
        if constexpr (F::copyable) {
            if (x.model.empty()) {
                return;
            }
            auto& m = *x.m;
            int from = present(x), k = some_key(x);
            auto q = mk(x, k);
            int v = x.model.at(mk(x, from)).val;
            auto it0 = m.find(F::key(from));
            bool was = x.model.count(q) != 0;
            switch (s.draw(3)) {
            case 0: {
                PBT_NOTE(c, "m" << index(x) << ".emplace(" << k << ", value of " << from << ")");
                auto [it, f] = m.emplace(F::key(k), it0->second);
                x.model.emplace(q, entry{ k, v });
                inserted(x, k, f, was, "emplace");
                points_at(x, it, k, "emplace");
                break;
            }
            case 1: {
                PBT_NOTE(c, "m" << index(x) << ".insert(*position of " << from << ")");
                auto [it, f] = m.insert(*it0);
                inserted(x, from, f, true, "insert");
                points_at(x, it, from, "insert");
                break;
            }
            default: {
                PBT_NOTE(c, "m" << index(x) << ".insert_or_assign(*position of " << from << ")");
                auto [it, f] = m.insert_or_assign(*it0);
                inserted(x, from, f, true, "insert_or_assign");
                points_at(x, it, from, "insert_or_assign");
            }
            }
        }
    }
    void op_write(slot& x) {
        if (x.model.empty()) {
            return;
        }
        int k = present(x), v = val();
        PBT_NOTE(c, "m" << index(x) << " write " << v << " at " << k);
        if (s.chance(1, 2)) {
            x.m->at(F::key(k)) = F::val(v);
        } else {
            auto it = x.m->find(F::key(k));
            PBT_CHECK(it != x.m->end(), "find of present key " << k << " returned end()");
            it->second = F::val(v);
        }
        x.model.at(mk(x, k)).val = v;
    }
    void op_erase(slot& x) {
        auto& m = *x.m;
        int k = s.chance(3, 4) ? present(x) : key();
        auto q = mk(x, k);
        bool was = x.model.count(q) != 0;
        auto kind = s.draw(4);
        PBT_NOTE(c, "m" << index(x) << ".erase(" << (kind == 1 ? "position of " : kind == 2 ? "const position of " : "") << k
                        << ")" << (was ? "" : " (absent)"));
        if (kind == 1 || kind == 2) {
            if (!was) {
                return;
            }
            auto it = m.find(F::key(k));
            PBT_CHECK(it != m.end(), "find of present key " << k << " returned end()");
            if (kind == 1) {
                m.erase(it);
            } else {
                const map& cm = m;
                m.erase(cm.find(F::key(k)));
            }
        } else if (kind == 3) {
            if constexpr (F::functors) {
                m.erase(k); // something that compares to a key
            } else {
                m.erase(F::key(k));
            }
        } else {
            const auto key = F::key(k);
            m.erase(key);
        }
        erased += x.model.erase(q);
    }
    /// erase while the table is walked: collect then erase by key
    void op_bulk(slot& x) {
        auto n = 1 + s.small(s.chance(1, 10) ? 400 : 60);
        int base = key();
        bool ins = s.chance(1, 2);
        PBT_NOTE(c, "m" << index(x) << (ins ? " insert " : " erase ") << n << " keys from " << base);
        for (u64 i = 0; i < n; i++) {
            int k = (base + static_cast<int>(i) * stride) % (range * stride);
            auto q = mk(x, k);
            bool was = x.model.count(q) != 0;
            if (ins) {
                int v = val();
                auto [it, f] = x.m->emplace(F::key(k), F::val(v));
                x.model.emplace(q, entry{ k, v });
                inserted(x, k, f, was, "emplace");
                points_at(x, it, k, "emplace");
            } else {
                x.m->erase(F::key(k));
                erased += x.model.erase(q);
                PBT_CHECK(x.m->find(F::key(k)) == x.m->end(), "key " << k << " is found after it was erased");
            }
            PBT_CHECK(x.m->size() == x.model.size(), "size " << x.m->size() << " instead of " << x.model.size());
        }
    }
    void op_reserve(slot& x) {
        std::size_t n = 0;
        switch (s.draw(6)) {
        case 0: n = s.draw(4); break;
        case 1: n = x.model.size(); break;
        case 2: n = x.model.size() + s.draw(5); break;
        case 3: n = std::size_t{ 1 } << s.draw(11); break;
        case 4: n = s.draw(2000); break;
        default: n = x.model.size() ? x.model.size() - 1 : 0;
        }
        PBT_NOTE(c, "m" << index(x) << ".reserve(" << n << ")");
        x.m->reserve(n);
    }
    void op_whole(slot& x) {
        auto& y = maps[s.draw(maps.size())];
        auto i = index(x), j = index(y);
        switch (s.draw(8)) {
        case 0:
            PBT_NOTE(c, "m" << i << ".clear()");
            x.m->clear();
            x.model.clear();
            break;
        case 1:
            if constexpr (F::copyable) {
                PBT_NOTE(c, "m" << i << " = copy constructed from m" << j);
                auto n = std::make_unique<map>(std::as_const(*y.m));
                auto model = y.model;
                auto p = y.p;
                x.m = std::move(n);
                x.model = model;
                x.p = p;
                copies++;
            }
            break;
        case 2:
            if constexpr (F::copyable) {
                PBT_NOTE(c, "m" << i << " = m" << j);
                *x.m = std::as_const(*y.m);
                x.model = std::map(y.model);
                x.p = y.p;
                copies++;
            }
            break;
        case 3:
            if (&x != &y) {
                PBT_NOTE(c, "m" << i << " = move constructed from m" << j);
                x.m = std::make_unique<map>(std::move(*y.m));
                x.model = std::move(y.model);
                x.p = y.p;
                moved_from(y);
            }
            break;
        case 4:
            if (&x != &y) {
                PBT_NOTE(c, "m" << i << " = std::move(m" << j << ")");
                *x.m = std::move(*y.m);
                x.model = std::move(y.model);
                x.p = y.p;
                moved_from(y);
            } else {
                // what a map moved to itself contains is not specified, but it is a map
                PBT_NOTE(c, "m" << i << " = std::move(m" << i << ")");
                *x.m = std::move(*y.m);
                if (x.m->size() == 0) {
                    x.model.clear();
                }
            }
            break;
        case 5:
            PBT_NOTE(c, "m" << i << ".swap(m" << j << ")");
            x.m->swap(std::move(*y.m));
            if (&x != &y) {
                std::swap(x.model, y.model);
                std::swap(x.p, y.p);
            }
            break;
        case 6:
            PBT_NOTE(c, "std::swap(m" << i << ", m" << j << ")");
            std::swap(*x.m, *y.m);
            if (&x != &y) {
                std::swap(x.model, y.model);
                std::swap(x.p, y.p);
            }
            break;
        default:
            fresh(x);
        }
        check(y);
    }
    /// the content of a map that was moved from is open; it has to take part again after clear or assignment
    void moved_from(slot& y) {
        y.model.clear();
        // the functors of a moved-from map are open, too, unless all maps use default ones
        bool can_clear = !F::functors || (same_params && y.p == params{});
        if (can_clear && s.chance(1, 2)) {
            PBT_NOTE(c, "m" << index(y) << ".clear() after having been moved from");
            y.m->clear();
        } else if (s.chance(1, 2)) {
            auto p = make_params();
            PBT_NOTE(c, "m" << index(y) << " = map(hash " << p.hash_mode << ", mask " << p.mask << ")");
            *y.m = map(16, H(p), E(p));
            y.p = p;
        } else {
            fresh(y);
        }
    }
    void lookup(slot& x, int k) {
        auto q = mk(x, k);
        auto e = x.model.find(q);
        auto& m = *x.m;
        const map& cm = m;
        auto key = F::key(k);
        PBT_CHECK(cm.count(key) == (e != x.model.end()), "m" << index(x) << ".count(" << k << ") is " << cm.count(key));
        PBT_CHECK(cm.contains(key) == (e != x.model.end()), "m" << index(x) << ".contains(" << k << ") is " << cm.contains(key));
        auto it = m.find(key);
        auto cit = cm.find(key);
        PBT_CHECK((it != m.end()) == (e != x.model.end()), "m" << index(x) << ".find(" << k << ") is wrong");
        PBT_CHECK((cit != cm.end()) == (e != x.model.end()), "m" << index(x) << ".find(" << k << ") const is wrong");
        if (e == x.model.end()) {
            bool t1 = false, t2 = false;
            try {
                (void)m.at(key);
            } catch (const std::out_of_range&) {
                t1 = true;
            }
            try {
                (void)cm.at(key);
            } catch (const std::out_of_range&) {
                t2 = true;
            }
            PBT_CHECK(t1 && t2, "m" << index(x) << ".at(" << k << ") of an absent key did not raise out_of_range");
            return;
        }
        PBT_CHECK(F::rk(it->first) == e->second.key, "m" << index(x) << ".find(" << k << ") has key " << F::rk(it->first));
        PBT_CHECK(F::rv(it->second) == e->second.val,
            "m" << index(x) << " maps " << k << " to " << F::rv(it->second) << " instead of " << e->second.val);
        PBT_CHECK(F::rv(m.at(key)) == e->second.val, "at(" << k << ") gives " << F::rv(m.at(key)));
        PBT_CHECK(F::rv(cm.at(key)) == e->second.val, "at(" << k << ") const gives " << F::rv(cm.at(key)));
        PBT_CHECK(&it->second == &cit->second && &it->second == &m.at(key) && &it->second == &cm.at(key),
            "the lookups of key " << k << " do not refer to the same element");
    }
    void check(slot& x) {
        auto& m = *x.m;
        const map& cm = m;
        if (!book().error.empty()) {
            PBT_FAIL(book().error);
        }
        PBT_CHECK(m.size() == x.model.size(), "m" << index(x) << ".size() is " << m.size() << " instead of " << x.model.size());
        PBT_CHECK(m.empty() == x.model.empty(), "m" << index(x) << ".empty() is " << m.empty());
        PBT_CHECK((m.begin() == m.end()) == x.model.empty() && (cm.begin() == cm.end()) == x.model.empty(),
            "m" << index(x) << ": begin()==end() does not agree with emptiness");
        maxsize = std::max(maxsize, x.model.size());
        // iteration
        if (x.model.size() < 80 || s.chance(1, 8)) {
            std::set<int> seen;
            auto see = [&](auto& kv) {
                int k = F::rk(kv.first), v = F::rv(kv.second);
                auto e = x.model.find(mk(x, k));
                PBT_CHECK(e != x.model.end() && e->second.key == k, "m" << index(x) << ": iteration meets key " << k
                                                                       << ", which the map does not hold");
                PBT_CHECK(e->second.val == v, "m" << index(x) << ": iteration meets " << k << " -> " << v << " instead of "
                                                  << e->second.val);
                PBT_CHECK(seen.insert(e->first).second, "m" << index(x) << ": iteration meets key " << k << " twice");
            };
            switch (s.draw(4)) {
            case 0:
                for (auto& kv : m) {
                    see(kv);
                }
                break;
            case 1:
                for (const auto& kv : cm) {
                    see(kv);
                }
                break;
            case 2:
                for (auto it = m.begin(); it != m.end();) {
                    auto old = it++;
                    see(*old);
                }
                break;
            default:
                for (auto it = cm.cbegin(); it != cm.cend(); ++it) {
                    see(*it);
                }
            }
            PBT_CHECK(seen.size() == x.model.size(), "m" << index(x) << ": iteration meets " << seen.size() << " of "
                                                         << x.model.size() << " keys");
        }
        if (x.model.size() < 24) {
            for (auto& [q, e] : x.model) {
                lookup(x, e.key);
            }
        } else {
            for (int i = 0; i < 5; i++) {
                lookup(x, present(x));
            }
        }
        for (int i = 0; i < 3; i++) {
            lookup(x, key());
        }
        if (F::functors) {
            std::size_t n = 0;
            for (auto& y : maps) {
                n += y.m ? y.model.size() : 0;
            }
            if (std::all_of(maps.begin(), maps.end(), [](auto& y) { return y.m != nullptr; })) {
                balance(n);
            }
        }
    }
    void balance(std::size_t n) {
        PBT_CHECK(book().live.size() == 2 * n,
            "the maps hold " << n << " pairs, but " << book().live.size() << " key and value objects are alive");
    }
    void run() {
        static const std::vector<std::vector<unsigned>> profiles{
            // insert write erase bulk reserve whole alias
            { 8, 1, 4, 1, 1, 1, 1 },
            { 4, 1, 8, 2, 1, 2, 1 },
            { 3, 1, 2, 4, 3, 3, 1 },
            { 10, 0, 0, 2, 0, 1, 2 },
        };
        auto w = profiles[s.draw(profiles.size())];
        s.set_len(3 + s.small(90));
        while (s.more()) {
            c.steps++;
            auto& x = maps[s.draw(maps.size())];
            auto before = x.model.size();
            switch (s.weighted(w)) {
            case 0: op_insert(x); break;
            case 1: op_write(x); break;
            case 2: op_erase(x); break;
            case 3: op_bulk(x); break;
            case 4: op_reserve(x); break;
            case 5: op_whole(x); break;
            default: op_alias(x);
            }
            check(x);
            grew += x.model.size() > before;
        }
        for (auto& x : maps) {
            check(x);
            for (auto& [q, e] : x.model) {
                lookup(x, e.key);
            }
        }
        for (auto& x : maps) {
            PBT_NOTE(c, "destroy m" << index(x));
            x.m.reset();
            x.model.clear();
            if (!book().error.empty()) {
                PBT_FAIL(book().error);
            }
        }
        if (F::functors) {
            PBT_CHECK(book().live.empty(), book().live.size() << " key or value objects are still alive after all maps are gone");
            PBT_CHECK(book().blocks.empty(), book().blocks.size() << " blocks were not released");
        }
        c.label("erased", erased);
        if (maxsize > 13) {
            c.label("case: grown beyond the first table");
        }
        if (maxsize > 400) {
            c.label("case: more than 400 pairs");
        }
        if (copies) {
            c.label("case: copied");
        }
        if (maxsize >= 6 && erased >= 2 && grew >= 3) {
            c.nontrivial();
        }
    }
};

void case_hash(pbt::ctx& c) {
    book().reset();
    switch (c.src.weighted({ 6, 2, 2 })) {
    case 0: {
        machine<tracked_flavour> m(c);
        m.run();
        break;
    }
    case 1: {
        machine<moveonly_flavour> m(c);
        m.run();
        break;
    }
    default: {
        machine<plain_flavour> m(c);
        m.run();
    }
    }
}
pbt::registrar r1({ "C15", "hash_map", case_hash, 250000, 6000000,
    "random operation sequences over 1-3 hash maps (tracked keys and values with stateful hash and equality functors of "
    "eight collision patterns, move-only values, plain values) compared after every step with std::map; living objects and "
    "memory blocks are counted; non-trivial: at least 6 pairs at once, 2 erased and 3 growing steps" });
} // namespace
} // namespace ct
