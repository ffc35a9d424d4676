// Include before any header of the code under test: replaces the synchronisation types of the standard library with
// ones driven by the deterministic scheduler. Every standard header must already be included when the macros appear.
#pragma once
#include <bits/stdc++.h>

#include "core.hpp"

namespace std {

constexpr int sched_ord(memory_order o) {
    return static_cast<int>(o);
}
constexpr memory_order sched_fail_order(memory_order o) {
    return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o;
}

#define SCHED_RT __attribute__((disable_sanitizer_instrumentation))

template<typename T>
class sched_atomic_base {
    static_assert(is_trivially_copyable_v<T>, "std::atomic requires a trivially copyable type");

public:
    using value_type = T;
    static constexpr bool is_always_lock_free = sizeof(T) <= 8;

    constexpr sched_atomic_base() noexcept(is_nothrow_default_constructible_v<T>) : v_() {
    }
    constexpr sched_atomic_base(T v) noexcept : v_(v) {
    }
    sched_atomic_base(const sched_atomic_base&) = delete;
    sched_atomic_base& operator=(const sched_atomic_base&) = delete;
    constexpr ~sched_atomic_base() {
        if (!is_constant_evaluated()) {
            sched::a_destroy(l_);
        }
    }
    bool is_lock_free() const noexcept {
        return is_always_lock_free;
    }
    SCHED_RT T load(memory_order o = memory_order_seq_cst) const noexcept {
        alignas(T) unsigned char b[sizeof(T)];
        sched::a_load(&v_, sizeof(T), l_, sched_ord(o), b);
        T r;
        __builtin_memcpy((void*)&r, b, sizeof(T));
        return r;
    }
    SCHED_RT void store(T v, memory_order o = memory_order_seq_cst) noexcept {
        sched::a_store(&v_, sizeof(T), l_, sched_ord(o), &v);
    }
    operator T() const noexcept {
        return load();
    }
    T operator=(T v) noexcept {
        store(v);
        return v;
    }
    SCHED_RT T exchange(T v, memory_order o = memory_order_seq_cst) noexcept {
        return rmw([&](T) { return v; }, o);
    }
    SCHED_RT bool compare_exchange_strong(T& e, T d, memory_order s, memory_order f) noexcept {
        return sched::a_cas(&v_, sizeof(T), l_, &e, &d, sched_ord(s), sched_ord(f), false);
    }
    bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) noexcept {
        return compare_exchange_strong(e, d, o, sched_fail_order(o));
    }
    SCHED_RT bool compare_exchange_weak(T& e, T d, memory_order s, memory_order f) noexcept {
        return sched::a_cas(&v_, sizeof(T), l_, &e, &d, sched_ord(s), sched_ord(f), true);
    }
    bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) noexcept {
        return compare_exchange_weak(e, d, o, sched_fail_order(o));
    }
    SCHED_RT void wait(T old, memory_order o = memory_order_seq_cst) const noexcept {
        sched::a_wait(&v_, sizeof(T), l_, &old, sched_ord(o));
    }
    void notify_one() noexcept {
        sched::a_notify(&v_);
    }
    void notify_all() noexcept {
        sched::a_notify(&v_);
    }

protected:
    template<typename F>
    SCHED_RT T rmw(F&& f, memory_order o) noexcept {
        sched::a_rmw_begin(&v_, sizeof(T), l_);
        T old = v_;
        T nv = f(old);
        sched::a_rmw_commit(&v_, sizeof(T), l_, sched_ord(o), &nv);
        return old;
    }
    T v_;
    mutable sched::loc_ref l_{};
};

template<typename T, typename = void>
class sched_atomic : public sched_atomic_base<T> {
public:
    using sched_atomic_base<T>::sched_atomic_base;
    using sched_atomic_base<T>::operator=;
};

#define SCHED_FETCH(name, expr)                                                        \
    SCHED_RT T name(T x, memory_order o = memory_order_seq_cst) noexcept {             \
        return this->rmw([&](T v) -> T { return static_cast<T>(expr); }, o);           \
    }

template<typename T>
class sched_atomic<T, enable_if_t<is_integral_v<T> && !is_same_v<T, bool>>> : public sched_atomic_base<T> {
public:
    using difference_type = T;
    using sched_atomic_base<T>::sched_atomic_base;
    using sched_atomic_base<T>::operator=;
    SCHED_FETCH(fetch_add, v + x)
    SCHED_FETCH(fetch_sub, v - x)
    SCHED_FETCH(fetch_and, v & x)
    SCHED_FETCH(fetch_or, v | x)
    SCHED_FETCH(fetch_xor, v ^ x)
    T operator++(int) noexcept {
        return fetch_add(1);
    }
    T operator--(int) noexcept {
        return fetch_sub(1);
    }
    T operator++() noexcept {
        return static_cast<T>(fetch_add(1) + 1);
    }
    T operator--() noexcept {
        return static_cast<T>(fetch_sub(1) - 1);
    }
    T operator+=(T x) noexcept {
        return static_cast<T>(fetch_add(x) + x);
    }
    T operator-=(T x) noexcept {
        return static_cast<T>(fetch_sub(x) - x);
    }
    T operator&=(T x) noexcept {
        return static_cast<T>(fetch_and(x) & x);
    }
    T operator|=(T x) noexcept {
        return static_cast<T>(fetch_or(x) | x);
    }
    T operator^=(T x) noexcept {
        return static_cast<T>(fetch_xor(x) ^ x);
    }
};

template<typename T>
class sched_atomic<T, enable_if_t<is_floating_point_v<T>>> : public sched_atomic_base<T> {
public:
    using difference_type = T;
    using sched_atomic_base<T>::sched_atomic_base;
    using sched_atomic_base<T>::operator=;
    SCHED_FETCH(fetch_add, v + x)
    SCHED_FETCH(fetch_sub, v - x)
    T operator+=(T x) noexcept {
        return fetch_add(x) + x;
    }
    T operator-=(T x) noexcept {
        return fetch_sub(x) - x;
    }
};

template<typename P>
class sched_atomic<P*> : public sched_atomic_base<P*> {
    using T = P*;

public:
    using difference_type = ptrdiff_t;
    using sched_atomic_base<P*>::sched_atomic_base;
    using sched_atomic_base<P*>::operator=;
    T fetch_add(ptrdiff_t x, memory_order o = memory_order_seq_cst) noexcept {
        return this->rmw([&](T v) -> T { return v + x; }, o);
    }
    T fetch_sub(ptrdiff_t x, memory_order o = memory_order_seq_cst) noexcept {
        return this->rmw([&](T v) -> T { return v - x; }, o);
    }
    T operator++(int) noexcept {
        return fetch_add(1);
    }
    T operator--(int) noexcept {
        return fetch_sub(1);
    }
    T operator++() noexcept {
        return fetch_add(1) + 1;
    }
    T operator--() noexcept {
        return fetch_sub(1) - 1;
    }
    T operator+=(ptrdiff_t x) noexcept {
        return fetch_add(x) + x;
    }
    T operator-=(ptrdiff_t x) noexcept {
        return fetch_sub(x) - x;
    }
};
#undef SCHED_FETCH

class sched_atomic_flag {
public:
    constexpr sched_atomic_flag() noexcept = default;
    bool test_and_set(memory_order o = memory_order_seq_cst) noexcept {
        return a_.exchange(true, o);
    }
    void clear(memory_order o = memory_order_seq_cst) noexcept {
        a_.store(false, o);
    }
    bool test(memory_order o = memory_order_seq_cst) const noexcept {
        return a_.load(o);
    }
    void wait(bool old, memory_order o = memory_order_seq_cst) const noexcept {
        a_.wait(old, o);
    }
    void notify_one() noexcept {
        a_.notify_one();
    }
    void notify_all() noexcept {
        a_.notify_all();
    }

private:
    sched_atomic<bool> a_{ false };
};

inline void sched_atomic_thread_fence(memory_order o) noexcept {
    sched::fence(sched_ord(o));
}

class sched_mutex {
public:
    constexpr sched_mutex() noexcept = default;
    sched_mutex(const sched_mutex&) = delete;
    sched_mutex& operator=(const sched_mutex&) = delete;
    ~sched_mutex() {
        sched::s_destroy(s_);
    }
    void lock() {
        sched::m_lock(s_, false);
    }
    bool try_lock() {
        return sched::m_try_lock(s_, false);
    }
    void unlock() {
        sched::m_unlock(s_, false);
    }
    template<typename D>
    bool try_lock_for(const D&) {
        return sched::m_try_lock_timed(s_, false);
    }
    template<typename D>
    bool try_lock_until(const D&) {
        return sched::m_try_lock_timed(s_, false);
    }

private:
    sched::sync_state s_;
};

class sched_recursive_mutex {
public:
    constexpr sched_recursive_mutex() noexcept = default;
    sched_recursive_mutex(const sched_recursive_mutex&) = delete;
    sched_recursive_mutex& operator=(const sched_recursive_mutex&) = delete;
    ~sched_recursive_mutex() {
        sched::s_destroy(s_);
    }
    void lock() {
        sched::m_lock(s_, true);
    }
    bool try_lock() {
        return sched::m_try_lock(s_, true);
    }
    void unlock() {
        sched::m_unlock(s_, true);
    }

private:
    sched::sync_state s_;
};

class sched_shared_mutex {
public:
    sched_shared_mutex() = default;
    sched_shared_mutex(const sched_shared_mutex&) = delete;
    sched_shared_mutex& operator=(const sched_shared_mutex&) = delete;
    ~sched_shared_mutex() {
        sched::s_destroy(s_);
    }
    void lock() {
        sched::sm_lock(s_);
    }
    bool try_lock() {
        return sched::sm_try_lock(s_);
    }
    void unlock() {
        sched::sm_unlock(s_);
    }
    void lock_shared() {
        sched::sm_lock_shared(s_);
    }
    bool try_lock_shared() {
        return sched::sm_try_lock_shared(s_);
    }
    void unlock_shared() {
        sched::sm_unlock_shared(s_);
    }

private:
    sched::sync_state s_;
};

template<ptrdiff_t Max = (ptrdiff_t(1) << 62)>
class sched_counting_semaphore {
public:
    explicit sched_counting_semaphore(ptrdiff_t n) noexcept {
        sched::sem_init(s_, n);
    }
    sched_counting_semaphore(const sched_counting_semaphore&) = delete;
    ~sched_counting_semaphore() {
        sched::s_destroy(s_);
    }
    static constexpr ptrdiff_t max() noexcept {
        return Max;
    }
    void release(ptrdiff_t n = 1) {
        sched::sem_release(s_, n);
    }
    void acquire() {
        sched::sem_acquire(s_);
    }
    bool try_acquire() noexcept {
        return sched::sem_try_acquire(s_);
    }
    template<typename D>
    bool try_acquire_for(const D&) {
        return sched::sem_try_acquire_timed(s_);
    }
    template<typename D>
    bool try_acquire_until(const D&) {
        return sched::sem_try_acquire_timed(s_);
    }

private:
    sched::sync_state s_;
};
using sched_binary_semaphore = sched_counting_semaphore<1>;

class sched_condition_variable {
public:
    sched_condition_variable() = default;
    sched_condition_variable(const sched_condition_variable&) = delete;
    ~sched_condition_variable() {
        sched::s_destroy(s_);
    }
    void notify_one() noexcept {
        sched::cv_notify(s_, false);
    }
    void notify_all() noexcept {
        sched::cv_notify(s_, true);
    }
    template<typename L>
    void wait(L& l) {
        sched::cv_wait(s_, false, [&] { l.unlock(); }, [&] { l.lock(); });
    }
    template<typename L, typename P>
    void wait(L& l, P p) {
        while (!p()) {
            wait(l);
        }
    }
    template<typename L, typename D>
    cv_status wait_for(L& l, const D&) {
        return sched::cv_wait(s_, true, [&] { l.unlock(); }, [&] { l.lock(); }) ? cv_status::no_timeout
                                                                                 : cv_status::timeout;
    }
    template<typename L, typename D, typename P>
    bool wait_for(L& l, const D& d, P p) {
        while (!p()) {
            if (wait_for(l, d) == cv_status::timeout) {
                return p();
            }
        }
        return true;
    }
    template<typename L, typename D>
    cv_status wait_until(L& l, const D& d) {
        return wait_for(l, d);
    }
    template<typename L, typename D, typename P>
    bool wait_until(L& l, const D& d, P p) {
        return wait_for(l, d, p);
    }

private:
    sched::sync_state s_;
};

class sched_latch {
public:
    explicit sched_latch(ptrdiff_t n) {
        sched::latch_init(s_, n);
    }
    sched_latch(const sched_latch&) = delete;
    ~sched_latch() {
        sched::s_destroy(s_);
    }
    void count_down(ptrdiff_t n = 1) {
        sched::latch_count_down(s_, n);
    }
    bool try_wait() const noexcept {
        return sched::latch_try(s_);
    }
    void wait() const {
        sched::latch_wait(s_);
    }
    void arrive_and_wait(ptrdiff_t n = 1) {
        count_down(n);
        wait();
    }

private:
    mutable sched::sync_state s_;
};

class sched_once_flag {
public:
    sched_once_flag() = default;
    sched_once_flag(const sched_once_flag&) = delete;
    sched_mutex m_;
    bool done_{};
};
template<typename F, typename... A>
void sched_call_once(sched_once_flag& f, F&& fn, A&&... a) {
    lock_guard<sched_mutex> lk(f.m_);
    if (!f.done_) {
        std::invoke(std::forward<F>(fn), std::forward<A>(a)...);
        f.done_ = true;
    }
}

class sched_thread {
public:
    using native_handle_type = pthread_t;
    class id {
    public:
        constexpr id() = default;
        explicit constexpr id(unsigned v) : v_(v) {
        }
        auto operator<=>(const id&) const = default;
        unsigned v_{};
    };
    sched_thread() noexcept = default;
    template<typename F, typename... A>
        requires(!is_same_v<remove_cvref_t<F>, sched_thread>)
    explicit sched_thread(F&& f, A&&... a) {
        auto p = make_shared<tuple<decay_t<F>, decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
        id_ = id(sched::t_start([p]() mutable {
            auto q = std::move(p);
            std::apply([](auto&& g, auto&&... b) { std::invoke(std::move(g), std::move(b)...); }, std::move(*q));
        }));
    }
    sched_thread(sched_thread&& o) noexcept : id_(o.id_) {
        o.id_ = id{};
    }
    sched_thread& operator=(sched_thread&& o) noexcept {
        if (joinable()) {
            std::terminate();
        }
        id_ = o.id_;
        o.id_ = id{};
        return *this;
    }
    ~sched_thread() {
        if (joinable()) {
            std::terminate();
        }
    }
    void swap(sched_thread& o) noexcept {
        std::swap(id_, o.id_);
    }
    bool joinable() const noexcept {
        return id_ != id{};
    }
    void join() {
        if (!joinable()) {
            throw system_error(make_error_code(errc::invalid_argument));
        }
        sched::t_join(id_.v_);
        id_ = id{};
    }
    void detach() {
        id_ = id{};
    }
    id get_id() const noexcept {
        return id_;
    }
    static unsigned hardware_concurrency() noexcept {
        return 4;
    }

private:
    id id_;
};

class sched_jthread {
public:
    using id = sched_thread::id;
    sched_jthread() noexcept = default;
    template<typename F, typename... A>
        requires(!is_same_v<remove_cvref_t<F>, sched_jthread>)
    explicit sched_jthread(F&& f, A&&... a) {
        if constexpr (is_invocable_v<decay_t<F>, stop_token, decay_t<A>...>) {
            t_ = sched_thread(std::forward<F>(f), ss_.get_token(), std::forward<A>(a)...);
        } else {
            t_ = sched_thread(std::forward<F>(f), std::forward<A>(a)...);
        }
    }
    sched_jthread(sched_jthread&&) noexcept = default;
    sched_jthread& operator=(sched_jthread&& o) noexcept {
        end();
        ss_ = std::move(o.ss_);
        t_ = std::move(o.t_);
        return *this;
    }
    ~sched_jthread() {
        end();
    }
    bool joinable() const noexcept {
        return t_.joinable();
    }
    void join() {
        t_.join();
    }
    void detach() {
        t_.detach();
    }
    id get_id() const noexcept {
        return t_.get_id();
    }
    bool request_stop() noexcept {
        return ss_.request_stop();
    }
    stop_token get_stop_token() const noexcept {
        return ss_.get_token();
    }
    stop_source get_stop_source() noexcept {
        return ss_;
    }
    static unsigned hardware_concurrency() noexcept {
        return 4;
    }

private:
    void end() {
        if (t_.joinable()) {
            ss_.request_stop();
            t_.join();
        }
    }
    stop_source ss_;
    sched_thread t_;
};

namespace sched_this_thread {
inline sched_thread::id get_id() noexcept {
    return sched_thread::id(sched::self());
}
inline void yield() noexcept {
    sched::t_yield();
}
template<typename D>
void sleep_for(const D&) {
    sched::t_yield();
}
template<typename D>
void sleep_until(const D&) {
    sched::t_yield();
}
} // namespace sched_this_thread

class sched_random_device {
public:
    using result_type = unsigned;
    sched_random_device() = default;
    explicit sched_random_device(const string&) {
    }
    static constexpr result_type min() {
        return 0;
    }
    static constexpr result_type max() {
        return ~0u;
    }
    double entropy() const noexcept {
        return 32;
    }
    result_type operator()() {
        return sched::rnd();
    }
};

using sched_atomic_bool = sched_atomic<bool>;
using sched_atomic_int = sched_atomic<int>;
using sched_atomic_uint = sched_atomic<unsigned>;
using sched_atomic_size_t = sched_atomic<size_t>;
using sched_atomic_uint16_t = sched_atomic<uint16_t>;
using sched_atomic_uint32_t = sched_atomic<uint32_t>;
using sched_atomic_uint64_t = sched_atomic<uint64_t>;
using sched_atomic_int64_t = sched_atomic<int64_t>;

template<>
struct hash<sched_thread::id> {
    size_t operator()(const sched_thread::id& i) const noexcept {
        return i.v_;
    }
};

} // namespace std

#define atomic sched_atomic
#define atomic_flag sched_atomic_flag
#define atomic_thread_fence sched_atomic_thread_fence
#define atomic_bool sched_atomic_bool
#define atomic_int sched_atomic_int
#define atomic_uint sched_atomic_uint
#define atomic_size_t sched_atomic_size_t
#define atomic_uint16_t sched_atomic_uint16_t
#define atomic_uint32_t sched_atomic_uint32_t
#define atomic_uint64_t sched_atomic_uint64_t
#define atomic_int64_t sched_atomic_int64_t
#define mutex sched_mutex
#define timed_mutex sched_mutex
#define recursive_mutex sched_recursive_mutex
#define shared_mutex sched_shared_mutex
#define shared_timed_mutex sched_shared_mutex
#define counting_semaphore sched_counting_semaphore
#define binary_semaphore sched_binary_semaphore
#define condition_variable sched_condition_variable
#define condition_variable_any sched_condition_variable
#define latch sched_latch
#define thread sched_thread
#define jthread sched_jthread
#define this_thread sched_this_thread
#define random_device sched_random_device
#define once_flag sched_once_flag
#define call_once sched_call_once
