// C18: arena allocators.
#include <bits/stdc++.h>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/allocator/temp_allocator.hpp>
#include <pbt.hpp>

namespace ct {
namespace {
using u64 = std::uint64_t;
struct block {
    unsigned char* p;
    std::size_t n;
    unsigned char pat;
    std::size_t before; // remaining() before the allocation
};
std::vector<u64> noise;

struct region {
    std::vector<unsigned char> mem;
    unsigned char* base;
    std::size_t size;
    std::vector<block> live;
    pbt::ctx& c;
    unsigned char pat{ 1 };
    std::size_t refused{}, padded{}, exact{};
    region(pbt::ctx& c, std::size_t size, std::size_t mis) : mem(size + 512 + 256, 0xee), size(size), c(c) {
        auto a = (reinterpret_cast<std::uintptr_t>(mem.data()) + 255 + 64) & ~std::uintptr_t{ 255 };
        base = reinterpret_cast<unsigned char*>(a) + mis;
    }
    void take(void* q, std::size_t n, std::size_t align, std::size_t before) {
        auto* p = static_cast<unsigned char*>(q);
        PBT_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0,
            "block of " << n << " bytes is not aligned to " << align << " (address ends in "
                        << (reinterpret_cast<std::uintptr_t>(p) & 1023) << ")");
        PBT_CHECK(p >= base && p <= base + size && n <= static_cast<std::size_t>(base + size - p),
            "block of " << n << " bytes at offset " << (p - base) << " is not inside the region of " << size << " bytes");
        for (auto& b : live) {
            PBT_CHECK(n == 0 || b.n == 0 || p + n <= b.p || b.p + b.n <= p,
                "block of " << n << " bytes at offset " << (p - base) << " overlaps the block of " << b.n << " bytes at offset "
                            << (b.p - base));
        }
        live.push_back({ p, n, pat, before });
        std::memset(p, pat, n);
        pat = static_cast<unsigned char>(pat == 250 ? 1 : pat + 1);
        exact += p + n == base + size;
    }
    void contents() {
        for (auto& b : live) {
            for (std::size_t i = 0; i < b.n; i++) {
                PBT_CHECK(b.p[i] == b.pat, "byte " << i << " of the block at offset " << (b.p - base) << " was overwritten");
            }
        }
        for (auto* p = mem.data(); p < mem.data() + mem.size(); p++) {
            if (p == base) {
                p = base + size;
                if (p >= mem.data() + mem.size()) {
                    break;
                }
            }
            PBT_CHECK(*p == 0xee, "a byte outside the region was written (offset " << (p - base) << " of " << size << ")");
        }
    }
};
std::size_t pick_size(pbt::source& s, std::size_t region, std::size_t left) {
    switch (s.weighted({ 6, 3, 3, 2, 1 })) {
    case 0: return 1 + s.draw(24);
    case 1: return 1 + s.draw(std::max<std::size_t>(region / 3, 1));
    case 2: {
        // around what is left
        auto d = static_cast<std::ptrdiff_t>(s.draw(7)) - 3;
        auto v = static_cast<std::ptrdiff_t>(left) + d;
        return v < 1 ? 1 : static_cast<std::size_t>(v);
    }
    case 3: return 1 + s.draw(2 * region + 1);
    default: return std::numeric_limits<std::size_t>::max() - s.draw(300);
    }
}

void case_linear(pbt::ctx& c) {
    auto& s = c.src;
    std::size_t size = s.chance(1, 10) ? s.draw(4) : 1 + s.small(600);
    region r(c, size, s.draw(64));
    PBT_NOTE(c, "linear allocator over " << size << " bytes at offset " << (reinterpret_cast<std::uintptr_t>(r.base) & 255));
    auto a = std::make_unique<co_ecs::detail::linear_allocator>(r.base, size);
    auto spare = std::make_unique<co_ecs::detail::linear_allocator>(r.base, 0);
    unsigned char* head = r.base;
    bool moved = false, resets = false;
    s.set_len(3 + s.small(40));
    while (s.more()) {
        c.steps++;
        switch (s.weighted({ 12, 1, 1 })) {
        case 0: {
            std::size_t al = std::size_t{ 1 } << s.draw(8);
            auto n = pick_size(s, size, static_cast<std::size_t>(r.base + size - head));
            if (s.chance(1, 30)) {
                n = 0;
            }
            bool dflt = s.chance(1, 5);
            if (dflt) {
                al = alignof(std::max_align_t);
            }
            void* p = dflt ? a->allocate(n) : a->allocate(n, al);
            auto at = (reinterpret_cast<std::uintptr_t>(head) + al - 1) & ~std::uintptr_t{ al - 1 };
            auto end = reinterpret_cast<std::uintptr_t>(r.base + size);
            bool fits = at <= end && n <= end - at;
            PBT_NOTE(c, "allocate " << n << " align " << al << " -> " << (p ? "block" : "null"));
            r.padded += fits && at != reinterpret_cast<std::uintptr_t>(head);
            if (!p) {
                PBT_CHECK(!fits || n == 0, "a request of " << n << " bytes aligned to " << al << " was refused though "
                                                           << (end - at) << " bytes are free from the next aligned address");
                r.refused++;
            } else {
                PBT_CHECK(fits, "a request of " << n << " bytes aligned to " << al << " was granted though it does not fit");
                r.take(p, n, al, 0);
                head = std::max(head, static_cast<unsigned char*>(p) + n);
            }
            break;
        }
        case 1:
            PBT_NOTE(c, "reset");
            a->reset();
            r.live.clear();
            head = r.base;
            resets = true;
            break;
        default:
            moved = true;
            if (s.chance(1, 2)) {
                PBT_NOTE(c, "move construct");
                a = std::make_unique<co_ecs::detail::linear_allocator>(std::move(*a));
            } else {
                PBT_NOTE(c, "move assign");
                *spare = std::move(*a);
                a.swap(spare);
            }
        }
        r.contents();
    }
    a->reset();
    r.live.clear();
    if (size) {
        void* p = a->allocate(size, 1);
        PBT_CHECK(p == r.base, "after reset the whole region of " << size << " bytes is not available");
    }
    c.label("refused", r.refused);
    c.label("blocks ending at the end of the region", r.exact);
    if (moved) {
        c.label("case: moved");
    }
    if (r.refused && r.padded && (resets || moved)) {
        c.nontrivial();
    }
}

void case_stack(pbt::ctx& c) {
    auto& s = c.src;
    std::size_t size = s.chance(1, 10) ? s.draw(4) : 1 + s.small(600);
    region r(c, size, s.draw(64));
    PBT_NOTE(c, "stack allocator over " << size << " bytes at offset " << (reinterpret_cast<std::uintptr_t>(r.base) & 255));
    auto a = std::make_unique<co_ecs::detail::stack_allocator>(r.base, size);
    static unsigned char dummy[64];
    auto spare = std::make_unique<co_ecs::detail::stack_allocator>(dummy, 0);
    std::size_t freed = 0;
    bool moved = false;
    PBT_CHECK(a->remaining() == size, "a new stack allocator has " << a->remaining() << " of " << size << " bytes");
    s.set_len(3 + s.small(40));
    while (s.more()) {
        c.steps++;
        switch (s.weighted({ 10, 6, 1, 1 })) {
        case 0: {
            std::size_t al = std::size_t{ 1 } << s.draw(8);
            auto before = a->remaining();
            auto n = pick_size(s, size, before);
            bool dflt = s.chance(1, 5);
            if (dflt) {
                al = alignof(std::max_align_t);
            }
            void* p = dflt ? a->allocate(n) : a->allocate(n, al);
            PBT_NOTE(c, "allocate " << n << " align " << al << " -> " << (p ? "block" : "null"));
            if (!p) {
                PBT_CHECK(a->remaining() == before, "a refused request changed remaining() from " << before << " to " << a->remaining());
                // one byte of bookkeeping and worst-case padding always suffice
                PBT_CHECK(n > before || before - n < al + 8, "a request of " << n << " bytes aligned to " << al << " was refused though "
                                                                      << before << " bytes are free");
                r.refused++;
            } else {
                PBT_CHECK(n <= before, "a request of " << n << " bytes was granted though " << before << " bytes are free");
                r.take(p, n, al, before);
                PBT_CHECK(a->remaining() <= before - n, "remaining() is " << a->remaining() << " after " << n << " of " << before
                                                                           << " bytes were taken");
                r.padded++;
            }
            break;
        }
        case 1:
            if (!r.live.empty()) {
                auto b = r.live.back();
                PBT_NOTE(c, "deallocate the block of " << b.n);
                r.live.pop_back();
                a->deallocate(b.p);
                PBT_CHECK(a->remaining() == b.before, "releasing the last block of " << b.n << " bytes left remaining() at "
                                                          << a->remaining() << " instead of " << b.before);
                freed++;
            }
            break;
        case 2:
            PBT_NOTE(c, "reset");
            a->reset();
            r.live.clear();
            PBT_CHECK(a->remaining() == size, "after reset " << a->remaining() << " of " << size << " bytes are available");
            break;
        default: {
            moved = true;
            auto rem = a->remaining();
            if (s.chance(1, 2)) {
                PBT_NOTE(c, "move construct");
                spare = std::make_unique<co_ecs::detail::stack_allocator>(std::move(*a));
            } else {
                PBT_NOTE(c, "move assign");
                *spare = std::move(*a);
            }
            a.swap(spare);
            PBT_CHECK(a->remaining() == rem, "remaining() is " << a->remaining() << " after a move, " << rem << " before");
        }
        }
        r.contents();
    }
    while (!r.live.empty()) {
        auto b = r.live.back();
        r.live.pop_back();
        a->deallocate(b.p);
        PBT_CHECK(a->remaining() == b.before, "releasing the last block left remaining() at " << a->remaining() << " instead of " << b.before);
    }
    PBT_CHECK(a->remaining() == size, a->remaining() << " of " << size << " bytes are available after everything was released");
    if (size > 1) {
        void* p = a->allocate(size - 1, 1);
        PBT_CHECK(p != nullptr, "the empty allocator does not grant " << size - 1 << " of its " << size << " bytes");
        r.take(p, size - 1, 1, 0);
        r.contents();
    }
    c.label("refused", r.refused);
    c.label("blocks ending at the end of the region", r.exact);
    if (moved) {
        c.label("case: moved");
    }
    if (r.refused && r.padded >= 2 && freed >= 2) {
        c.nontrivial();
    }
}

// temp_allocator: nested scopes of vectors of several element types on one or more threads
template<std::size_t N, std::size_t A>
struct alignas(A) elem {
    unsigned char b[N];
};
struct held {
    const unsigned char* p;
    std::size_t n;
    unsigned char pat;
};
struct scope {
    pbt::ctx& c;
    pbt::source& s;
    std::vector<held> live;
    int depth{}, max_depth{};
    std::size_t nblocks{}, badallocs{};
    void contents() {
        for (auto& h : live) {
            for (std::size_t i = 0; i < h.n; i = i < 64 ? i + 1 : i + 61) {
                PBT_CHECK(h.p[i] == h.pat, "byte " << i << " of a temporary block of " << h.n << " bytes was overwritten");
            }
        }
    }
    template<typename T>
    void level() {
        co_ecs::detail::temp_allocator<T> al;
        std::size_t n = 1 + s.small(s.chance(1, 12) ? 200000 : 300);
        n = std::min<std::size_t>(n, 2000000 / sizeof(T));
        auto* p = reinterpret_cast<unsigned char*>(al.allocate(n));
        PBT_NOTE(c, std::string(static_cast<std::size_t>(depth), ' ') << "temp " << n << " elements of " << sizeof(T) << " align " << alignof(T));
        PBT_CHECK(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "temporary block not aligned to " << alignof(T));
        for (auto& h : live) {
            PBT_CHECK(p + n * sizeof(T) <= h.p || h.p + h.n <= p, "temporary blocks overlap");
        }
        auto pat = static_cast<unsigned char>(1 + s.draw(250));
        std::memset(p, pat, n * sizeof(T));
        live.push_back({ p, n * sizeof(T), pat });
        nblocks++;
        contents();
        body();
        contents();
        live.pop_back();
        al.deallocate(reinterpret_cast<T*>(p), n);
    }
    template<typename T>
    void too_much() {
        // more than the whole arena, up to sizes whose byte count does not fit size_t
        std::size_t n = 0;
        switch (s.draw(3)) {
        case 0: n = co_ecs::detail::global_stack_allocator_size / sizeof(T) + 1 + s.draw(1000); break;
        case 1: n = std::numeric_limits<std::size_t>::max() / sizeof(T) - s.draw(3); break;
        default: n = std::numeric_limits<std::size_t>::max() / sizeof(T) + 1 + s.draw(5);
        }
        if (sizeof(T) == 1) {
            n = std::numeric_limits<std::size_t>::max() - s.draw(3);
        }
        PBT_NOTE(c, std::string(static_cast<std::size_t>(depth), ' ') << "temp " << n << " elements of " << sizeof(T) << " (too much)");
        co_ecs::detail::temp_allocator<T> al;
        bool thrown = false;
        try {
            (void)al.allocate(n);
        } catch (const std::bad_alloc&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "a temporary allocation of " << n << " elements of " << sizeof(T) << " bytes did not raise bad_alloc");
        badallocs++;
        contents();
    }
    void body() {
        depth++;
        max_depth = std::max(max_depth, depth);
        int k = 0;
        while (depth < 14 && s.chance(depth < 3 ? 3 : 1, 4) && k++ < 5) {
            s.mark();
            c.steps++;
            switch (s.draw(12)) {
            case 0:
            case 1: level<elem<1, 1>>(); break;
            case 2: level<elem<3, 1>>(); break;
            case 3: level<std::uint64_t>(); break;
            case 4: level<elem<24, 8>>(); break;
            case 5: level<elem<16, 16>>(); break;
            case 6: level<elem<64, 64>>(); break;
            case 7: level<elem<128, 128>>(); break;
            case 8: {
                // a growing vector is the only user of the top of the stack while it does not grow
                std::vector<std::uint32_t, co_ecs::detail::temp_allocator<std::uint32_t>> v;
                auto n = 1 + s.small(2000);
                v.reserve(n);
                for (std::size_t i = 0; i < n; i++) {
                    v.push_back(static_cast<std::uint32_t>(i * 7));
                }
                body();
                for (std::size_t i = 0; i < n; i++) {
                    PBT_CHECK(v[i] == static_cast<std::uint32_t>(i * 7), "element " << i << " of a temporary vector was overwritten");
                }
                nblocks++;
                break;
            }
            case 9: too_much<std::uint64_t>(); break;
            case 10: too_much<elem<24, 8>>(); break;
            default: too_much<elem<1, 1>>();
            }
        }
        depth--;
    }
};
void case_temp(pbt::ctx& c) {
    auto& s = c.src;
    auto before = co_ecs::detail::global_stack_allocator.remaining();
    scope top{ c, s, {} };
    int threads = s.chance(1, 20) ? 1 + static_cast<int>(s.draw(2)) : 0;
    top.body();
    for (int i = 0; i < threads; i++) {
        // another thread has an arena of its own
        std::exception_ptr e;
        std::optional<pbt::fail_exception> f;
        co_ecs::detail::temp_allocator<int> al;
        int* mine = al.allocate(100);
        std::fill(mine, mine + 100, 4711);
        PBT_NOTE(c, "on another thread:");
        std::thread t([&] {
            try {
                scope sub{ c, s, {} };
                sub.body();
                top.max_depth = std::max(top.max_depth, sub.max_depth);
                PBT_CHECK(co_ecs::detail::global_stack_allocator.remaining() == co_ecs::detail::global_stack_allocator_size,
                    "the arena of a thread is not empty after everything was released");
            } catch (const pbt::fail_exception& x) {
                f = x;
            }
        });
        t.join();
        if (f) {
            throw *f;
        }
        PBT_CHECK(std::all_of(mine, mine + 100, [](int v) { return v == 4711; }), "a block was overwritten by another thread");
        al.deallocate(mine, 100);
    }
    auto after = co_ecs::detail::global_stack_allocator.remaining();
    PBT_CHECK(after == before, "remaining() is " << after << " instead of " << before << " after everything was released");
    if (s.chance(1, 300)) {
        // fill the arena to the brim
        co_ecs::detail::temp_allocator<unsigned char> al;
        std::vector<unsigned char*> ps;
        std::size_t sz = 1 + s.draw(3000000), total = 0;
        try {
            while (true) {
                auto* p = al.allocate(sz);
                p[0] = p[sz - 1] = 1;
                ps.push_back(p);
                total += sz;
            }
        } catch (const std::bad_alloc&) {
        }
        PBT_NOTE(c, "filled with " << ps.size() << " blocks of " << sz);
        PBT_CHECK(total <= before && before - total < sz + ps.size() * 64 + 64, "the arena took " << total << " of " << before << " bytes in blocks of " << sz);
        while (!ps.empty()) {
            al.deallocate(ps.back(), sz);
            ps.pop_back();
        }
        PBT_CHECK(co_ecs::detail::global_stack_allocator.remaining() == before, "the arena is not empty after everything was released");
        c.label("case: arena filled");
    }
    c.label("too large requests", top.badallocs);
    if (top.nblocks >= 4 && top.max_depth >= 3) {
        c.nontrivial();
    }
}
pbt::registrar r1({ "C18", "linear", case_linear, 3000000, 60000000,
    "random allocation sizes (including 0, the exact rest and near SIZE_MAX), alignments 1-128, misaligned regions, resets and "
    "moves; blocks aligned, inside, disjoint, contents kept, guard bytes untouched, refusal exactly when it does not fit; "
    "non-trivial: a refused request, a padded block, and a reset or move" });
pbt::registrar r2({ "C18", "stack", case_stack, 3000000, 60000000,
    "as linear, with releases in reverse order restoring remaining() exactly; non-trivial: a refused request, 2 blocks, 2 "
    "releases" });
pbt::registrar r3({ "C18", "temp", case_temp, 400000, 8000000,
    "nested temporary blocks and vectors of seven element types released in reverse order, oversized requests (including "
    "element counts whose byte size overflows), threads with arenas of their own; non-trivial: 4 blocks, 3 levels" });
} // namespace
} // namespace ct
