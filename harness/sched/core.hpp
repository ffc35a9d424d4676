// Deterministic scheduler and C++ memory model for code that uses std::atomic, std::mutex, std::thread and friends.
// Every interleaving, timeout and stale read is chosen by the case's choice sequence. Plain memory accesses of
// instrumented code (clang -fsanitize=thread, with the callbacks implemented in race.cpp instead of the TSan runtime)
// are checked for data races against the happens-before relation of the same model.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>

#include "pbt.hpp"

namespace sched {

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr unsigned MAX_THREADS = 40;

enum order : int { relaxed, consume, acquire, release, acq_rel, seq_cst };

/// where an atomic object keeps its identity in the memory model
struct loc_ref {
    u32 id{};
    u32 epoch{};
};

struct options {
    bool weak{};          // stale reads allowed
    bool pct{};           // priority-based schedules instead of random preemption
    u64 budget{ 60000 };  // scheduling points after which the schedule becomes fair round robin
    u32 quantum_class{};  // length of the time slices
    u32 stale_num{ 1 }, stale_den{ 4 };
};
options draw_options(pbt::source& s);

/// runs body as the logical main thread of a case; returns after every logical thread has ended
void run(pbt::ctx& c, const options& o, const std::function<void()>& body);

bool active() noexcept;
void point() noexcept; // scheduling point
u64 steps() noexcept;
u64 preemptions() noexcept;
u64 stale_reads() noexcept;
u64 switches() noexcept;
u32 self() noexcept; // logical thread id

// atomics
void a_load(const void* obj, std::size_t size, loc_ref& l, int o, void* out) noexcept;
void a_store(void* obj, std::size_t size, loc_ref& l, int o, const void* in) noexcept;
void a_rmw_begin(void* obj, std::size_t size, loc_ref& l) noexcept; // newest value is in *obj afterwards
void a_rmw_commit(void* obj, std::size_t size, loc_ref& l, int o, const void* in) noexcept;
/// compare-exchange; expected is updated on failure
bool a_cas(void* obj, std::size_t size, loc_ref& l, void* expected, const void* desired, int so, int fo, bool weak) noexcept;
void a_destroy(loc_ref& l) noexcept;
void a_wait(const void* obj, std::size_t size, loc_ref& l, const void* old, int o) noexcept;
void a_notify(const void* obj) noexcept;
void fence(int o) noexcept;

// blocking objects
struct sync_state {
    u64 data[2]{};      // meaning depends on the kind of object
    void* view{};       // happens-before view published by releases
    u32 epoch{};
    constexpr sync_state() = default;
};
void s_destroy(sync_state& s) noexcept;
void m_lock(sync_state& s, bool recursive) noexcept;
bool m_try_lock(sync_state& s, bool recursive) noexcept;
bool m_try_lock_timed(sync_state& s, bool recursive) noexcept;
void m_unlock(sync_state& s, bool recursive) noexcept;
void sm_lock_shared(sync_state& s) noexcept;
bool sm_try_lock_shared(sync_state& s) noexcept;
void sm_unlock_shared(sync_state& s) noexcept;
void sm_lock(sync_state& s) noexcept;
bool sm_try_lock(sync_state& s) noexcept;
void sm_unlock(sync_state& s) noexcept;
void sem_init(sync_state& s, std::int64_t n) noexcept;
void sem_release(sync_state& s, std::int64_t n) noexcept;
void sem_acquire(sync_state& s) noexcept;
bool sem_try_acquire(sync_state& s) noexcept;
bool sem_try_acquire_timed(sync_state& s) noexcept;
/// waits until notified (or timeout); unlock and relock are called around the wait
bool cv_wait(sync_state& s, bool timed, const std::function<void()>& unlock, const std::function<void()>& relock) noexcept;
void cv_notify(sync_state& s, bool all) noexcept;
void latch_init(sync_state& s, std::int64_t n) noexcept;
void latch_count_down(sync_state& s, std::int64_t n) noexcept;
bool latch_try(sync_state& s) noexcept;
void latch_wait(sync_state& s) noexcept;

// threads
u32 t_start(std::function<void()> f);
void t_join(u32 id) noexcept;
void t_yield() noexcept;

u32 rnd() noexcept; // for std::random_device

// plain memory (race.cpp)
void mem_access(const void* p, std::size_t n, bool write, bool atomic, const void* pc) noexcept;
void mem_reset(const void* p, std::size_t n) noexcept; // forget past accesses
void mem_case_begin() noexcept;
void mem_case_end() noexcept;
void mem_thread_gone(const void* stack, std::size_t n) noexcept;
void mem_thread_new(const void* stack, std::size_t n) noexcept;

// used by race.cpp
u32 clock_of(u32 tid) noexcept;  // what the running thread knows of thread tid
u32 own_clock() noexcept;
void addr_sync(const void* p, std::size_t n, int o, bool is_store, bool is_rmw, const void* pc) noexcept; // atomic builtin
bool in_runtime() noexcept;

/// suspends race checks (for harness bookkeeping shared between logical threads)
struct quiet {
    quiet() noexcept;
    ~quiet();
};

} // namespace sched
