// Callbacks of -fsanitize=thread instrumentation and the heap, checked against the happens-before relation of core.cpp.
#include "core.hpp"

#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sched {
namespace {

struct cell {
    u32 clk;
    u8 tid;
    u8 mask;
    u8 flags; // 1 write, 2 atomic, 4 in use, 8 free
    u8 pad;
    u64 pc;
};
constexpr unsigned CELLS = 4;
constexpr unsigned REGION = 1024;
struct region {
    u64 key;
    u32 epoch;
    u32 rot;
    cell c[REGION / 8][CELLS];
};
struct slot_t {
    u64 key;
    region* r;
};
slot_t* table = nullptr;
std::size_t cap = 0, used = 0;
u32 epoch = 1;

void* raw(std::size_t n) {
    auto* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        _exit(2);
    }
    return p;
}

std::size_t hash(u64 k) {
    return static_cast<std::size_t>((k * 0x9e3779b97f4a7c15ull) >> 24);
}

char* pool = nullptr;
std::size_t pool_left = 0;

region* find_region(u64 key, bool make) {
    if (cap == 0 || used * 2 > cap) {
        if (!make && cap == 0) {
            return nullptr;
        }
        auto* old = table;
        auto oc = cap;
        cap = cap ? cap * 2 : 4096;
        table = static_cast<slot_t*>(raw(cap * sizeof(slot_t)));
        for (std::size_t i = 0; i < oc; i++) {
            if (old[i].r != nullptr) {
                auto h = hash(old[i].key);
                while (table[h % cap].r != nullptr) {
                    h++;
                }
                table[h % cap] = old[i];
            }
        }
        if (old != nullptr) {
            munmap(old, oc * sizeof(slot_t));
        }
    }
    auto h = hash(key);
    while (true) {
        auto& s = table[h % cap];
        if (s.r == nullptr) {
            if (!make) {
                return nullptr;
            }
            if (pool_left < sizeof(region)) {
                pool_left = sizeof(region) * 256;
                pool = static_cast<char*>(raw(pool_left));
            }
            s.key = key;
            s.r = reinterpret_cast<region*>(pool);
            pool += sizeof(region);
            pool_left -= sizeof(region);
            s.r->key = key;
            s.r->epoch = epoch;
            used++;
            return s.r;
        }
        if (s.key == key) {
            if (s.r->epoch != epoch) {
                if (!make) {
                    return nullptr;
                }
                std::memset(s.r->c, 0, sizeof s.r->c);
                s.r->epoch = epoch;
            }
            return s.r;
        }
        h++;
    }
}

// ---- heap ----
constexpr std::size_t ARENA = 1ull << 30;
constexpr std::size_t BIG = 64 * 1024;
char* arena = nullptr;
u8* state = nullptr; // per 8 bytes: number of valid bytes; 0 outside of any block, 0xfd freed
std::size_t brk_ = 0;
struct header {
    u64 size;
    u32 cls;
    u32 back; // distance from the beginning of the raw block
};
struct free_node {
    free_node* next;
    u32 cls;
};
constexpr unsigned NCLS = 64 + 12;
free_node* free_list[NCLS];
free_node* q_head = nullptr;
free_node* q_tail = nullptr;
std::size_t q_bytes = 0;
void* big_q[4096];
unsigned n_big = 0;

unsigned class_of(std::size_t n) {
    if (n <= 1024) {
        return static_cast<unsigned>((n + 15) / 16) - 1;
    }
    unsigned c = 64;
    std::size_t s = 2048;
    while (s < n) {
        s *= 2;
        c++;
    }
    return c;
}
std::size_t class_size(unsigned c) {
    return c < 64 ? (c + 1) * 16 : std::size_t(2048) << (c - 64);
}
void set_state(void* p, std::size_t n, bool valid) {
    auto off = static_cast<std::size_t>(static_cast<char*>(p) - arena);
    for (std::size_t i = 0; i < n; i += 8) {
        state[(off + i) / 8] = valid ? static_cast<u8>(n - i >= 8 ? 8 : n - i) : 0xfd;
    }
}
bool in_arena(const void* p) {
    return arena != nullptr && p >= arena && p < arena + ARENA;
}
void q_release() {
    auto* f = q_head;
    q_head = f->next;
    if (q_head == nullptr) {
        q_tail = nullptr;
    }
    q_bytes -= class_size(f->cls);
    f->next = free_list[f->cls];
    free_list[f->cls] = f;
}

void* heap_alloc(std::size_t n, std::size_t align) {
    if (arena == nullptr) {
        arena = static_cast<char*>(raw(ARENA));
        state = static_cast<u8*>(raw(ARENA / 8));
    }
    if (align < 16) {
        align = 16;
    }
    std::size_t need = sizeof(header) + n + 16 + (align > 16 ? align : 0);
    if (need > BIG) {
        void* p = nullptr;
        if (posix_memalign(&p, align, n ? n : 1) != 0) {
            return nullptr;
        }
        return p;
    }
    auto c = class_of(need);
    char* b;
    if (free_list[c] != nullptr) {
        b = reinterpret_cast<char*>(free_list[c]);
        free_list[c] = free_list[c]->next;
    } else {
        auto s = class_size(c);
        if (brk_ + s > ARENA) {
            return nullptr;
        }
        b = arena + brk_;
        brk_ += s;
    }
    auto u = reinterpret_cast<u64>(b) + sizeof(header);
    u = (u + align - 1) / align * align;
    auto* p = reinterpret_cast<char*>(u);
    auto* h = reinterpret_cast<header*>(p) - 1;
    h->size = n;
    h->cls = c;
    h->back = static_cast<u32>(p - b);
    set_state(p, n, true);
    mem_reset(p, n);
    return p;
}

void heap_free(void* p, const void* pc) {
    if (p == nullptr) {
        return;
    }
    if (!in_arena(p)) {
        if (active()) {
            if (n_big < 4096) {
                big_q[n_big++] = p;
                return;
            }
        }
        free(p);
        return;
    }
    auto* h = reinterpret_cast<header*>(p) - 1;
    auto off = static_cast<std::size_t>(static_cast<char*>(p) - arena);
    auto n = h->size;
    if (active() && (n > 0 && state[off / 8] == 0xfd)) {
        pbt::fail_now("double free of heap memory");
    }
    if (!in_runtime()) {
        mem_access(p, n, true, false, pc);
    }
    set_state(p, n, false);
    auto* b = static_cast<char*>(p) - h->back;
    auto c = h->cls;
    auto* f = reinterpret_cast<free_node*>(b);
    f->cls = c;
    f->next = nullptr;
    // the node lies in the header, before the (now invalid) user bytes
    if (q_tail != nullptr) {
        q_tail->next = f;
    } else {
        q_head = f;
    }
    q_tail = f;
    q_bytes += class_size(c);
    while (q_bytes > (8u << 20)) {
        q_release();
    }
}

// ---- stacks ----
const char* stacks = nullptr;
std::size_t stack_size = 0;
bool gone[MAX_THREADS];

std::string hex(u64 v) {
    char b[32];
    std::snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(v));
    return b;
}

[[noreturn]] void bad_access(const char* what, const void* p, std::size_t n, bool write, const void* pc) {
    std::ostringstream os;
    os << what << ": thread T" << self() - 1 << (write ? " writes " : " reads ") << n << " bytes at "
       << hex(reinterpret_cast<u64>(p)) << " (pc " << hex(reinterpret_cast<u64>(pc)) << ")";
    pbt::fail_now(os.str());
}

[[noreturn]] void race(const cell& c, bool write, bool atomic, const void* p, std::size_t n, const void* pc) {
    std::ostringstream os;
    os << "data race: " << (atomic ? "atomic " : "") << (write ? "write" : "read") << " of " << n << " bytes by thread T"
       << self() - 1 << " (pc " << hex(reinterpret_cast<u64>(pc)) << ") is not ordered after the "
       << ((c.flags & 2) ? "atomic " : "") << ((c.flags & 1) ? "write" : "read") << " by thread T" << unsigned(c.tid)
       << " (pc " << hex(c.pc) << ") of address " << hex(reinterpret_cast<u64>(p));
    pbt::fail_now(os.str());
}

} // namespace

void mem_access(const void* p, std::size_t n, bool write, bool atomic, const void* pc) noexcept {
    if (in_runtime() || n == 0) {
        return;
    }
    auto a = reinterpret_cast<u64>(p);
    if (in_arena(p)) {
        auto off = a - reinterpret_cast<u64>(arena);
        for (auto g = off / 8; g <= (off + n - 1) / 8; g++) {
            auto last = std::min<u64>(off + n, g * 8 + 8) - g * 8; // bytes of the granule up to here are needed
            if (state[g] > 8) {
                bad_access("access to freed memory", p, n, write, pc);
            }
            if (state[g] < last) {
                bad_access("access outside of any heap block", p, n, write, pc);
            }
        }
    } else if (p >= stacks && p < stacks + stack_size * MAX_THREADS) {
        auto k = (a - reinterpret_cast<u64>(stacks)) / stack_size;
        if (gone[k]) {
            bad_access("access to the stack or thread-local memory of a finished thread", p, n, write, pc);
        }
    }
    auto tid = static_cast<u8>(self() - 1);
    auto clk = own_clock();
    auto end = a + n;
    region* r = nullptr;
    for (auto g = a & ~7ull; g < end; g += 8) {
        if (r == nullptr || r->key != g / REGION) {
            r = find_region(g / REGION, true);
        }
        auto lo = g < a ? a - g : 0, hi = end - g < 8 ? end - g : 8;
        auto mask = static_cast<u8>((0xffu << lo) & (0xffu >> (8 - hi)));
        auto& cs = r->c[(g % REGION) / 8];
        cell* place = nullptr;
        cell* spare = nullptr;
        for (auto& c : cs) {
            if (c.flags == 0) {
                spare = &c;
                continue;
            }
            if (c.tid == tid) {
                if (c.mask == mask && (write || !(c.flags & 1)) && (!atomic || (c.flags & 2))) {
                    place = &c;
                }
                continue;
            }
            bool ordered = c.clk <= clock_of(c.tid);
            if ((c.mask & mask) && (write || (c.flags & 1)) && !(atomic && (c.flags & 2)) && !ordered) {
                race(c, write, atomic, p, n, pc);
            }
            if (ordered && (c.mask & ~mask) == 0 && (write || !(c.flags & 1)) && (!atomic || (c.flags & 2))) {
                spare = &c; // anything that races with the old access also races with this one or is ordered after it
            }
        }
        if (place == nullptr) {
            place = spare ? spare : &cs[r->rot++ % CELLS];
        }
        place->clk = clk;
        place->tid = tid;
        place->mask = mask;
        place->flags = static_cast<u8>((write ? 1 : 0) | (atomic ? 2 : 0) | 4);
        place->pc = reinterpret_cast<u64>(pc);
    }
}

void mem_reset(const void* p, std::size_t n) noexcept {
    auto a = reinterpret_cast<u64>(p);
    for (auto g = a & ~7ull; g < a + n;) {
        auto* r = find_region(g / REGION, false);
        auto stop = std::min<u64>(a + n, (g / REGION + 1) * REGION);
        if (r != nullptr) {
            for (; g < stop; g += 8) {
                std::memset(r->c[(g % REGION) / 8], 0, sizeof r->c[0]);
            }
        }
        g = stop;
    }
}

void mem_case_begin() noexcept {
    epoch++;
}
void mem_case_end() noexcept {
    while (q_head != nullptr) {
        q_release();
    }
    for (unsigned i = 0; i < n_big; i++) {
        free(big_q[i]);
    }
    n_big = 0;
}
void mem_thread_new(const void* s, std::size_t n) noexcept {
    auto* c = static_cast<const char*>(s);
    if (stacks == nullptr || c < stacks) {
        stacks = c;
    }
    stack_size = n;
    gone[static_cast<std::size_t>(c - stacks) / n] = false;
}
void mem_thread_gone(const void* s, std::size_t n) noexcept {
    gone[static_cast<std::size_t>(static_cast<const char*>(s) - stacks) / n] = true;
}

} // namespace sched

// ---- operator new and delete ----
void* operator new(std::size_t n) {
    if (auto* p = sched::heap_alloc(n, 16)) {
        return p;
    }
    throw std::bad_alloc{};
}
void* operator new[](std::size_t n) {
    return operator new(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
    return sched::heap_alloc(n, 16);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
    return sched::heap_alloc(n, 16);
}
void* operator new(std::size_t n, std::align_val_t a) {
    if (auto* p = sched::heap_alloc(n, static_cast<std::size_t>(a))) {
        return p;
    }
    throw std::bad_alloc{};
}
void* operator new[](std::size_t n, std::align_val_t a) {
    return operator new(n, a);
}
void operator delete(void* p) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete[](void* p) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete(void* p, std::size_t) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete[](void* p, std::size_t) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete(void* p, std::align_val_t) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete[](void* p, std::align_val_t) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
    sched::heap_free(p, __builtin_return_address(0));
}

// ---- instrumentation callbacks ----
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
void __tsan_ignore_thread_begin() {
}
void __tsan_ignore_thread_end() {
}
#define RW(n)                                                                  \
    void __tsan_read##n(void* p) {                                             \
        sched::mem_access(p, n, false, false, PC);                             \
    }                                                                          \
    void __tsan_write##n(void* p) {                                            \
        sched::mem_access(p, n, true, false, PC);                              \
    }                                                                          \
    void __tsan_read_write##n(void* p) {                                       \
        sched::mem_access(p, n, true, false, PC);                              \
    }                                                                          \
    void __tsan_unaligned_read##n(void* p) {                                   \
        sched::mem_access(p, n, false, false, PC);                             \
    }                                                                          \
    void __tsan_unaligned_write##n(void* p) {                                  \
        sched::mem_access(p, n, true, false, PC);                              \
    }                                                                          \
    void __tsan_unaligned_read_write##n(void* p) {                             \
        sched::mem_access(p, n, true, false, PC);                              \
    }                                                                          \
    void __tsan_volatile_read##n(void* p) {                                    \
        sched::mem_access(p, n, false, false, PC);                             \
    }                                                                          \
    void __tsan_volatile_write##n(void* p) {                                   \
        sched::mem_access(p, n, true, false, PC);                              \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, unsigned long n) {
    sched::mem_access(p, n, false, false, PC);
}
void __tsan_write_range(void* p, unsigned long n) {
    sched::mem_access(p, n, true, false, PC);
}
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) {
        sched::mem_access(p, 8, true, false, PC);
    }
}
void __tsan_vptr_read(void** p) {
    sched::mem_access(p, 8, false, false, PC);
}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
    sched::mem_access(s, n, false, false, PC);
    sched::mem_access(d, n, true, false, PC);
    return std::memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
    sched::mem_access(s, n, false, false, PC);
    sched::mem_access(d, n, true, false, PC);
    return std::memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n) {
    sched::mem_access(d, n, true, false, PC);
    return std::memset(d, v, n);
}
void __tsan_atomic_thread_fence(int o) {
    sched::fence(o);
}
void __tsan_atomic_signal_fence(int) {
}
#define AT(N, T)                                                                                         \
    T __tsan_atomic##N##_load(const volatile T* p, int o) {                                              \
        sched::addr_sync((const void*)p, sizeof(T), o, false, false, PC);                                   \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                    \
    void __tsan_atomic##N##_store(volatile T* p, T v, int o) {                                           \
        sched::addr_sync((const void*)p, sizeof(T), o, true, false, PC);                                    \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                        \
    }                                                                                                    \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int o) {                                           \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                              \
    }                                                                                                    \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int o) {                                          \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int o) {                                          \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int o) {                                          \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int o) {                                           \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                    \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int o) {                                          \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                               \
    }                                                                                                    \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int) {               \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
    }                                                                                                    \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int) {                 \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
    }                                                                                                    \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int o, int) {                     \
        sched::addr_sync((const void*)p, sizeof(T), o, true, true, PC);                                    \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                \
        return e;                                                                                        \
    }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
}
