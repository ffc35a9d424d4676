// Objects that know whether they are alive, and an allocator that counts its blocks.
#pragma once
#include <memory>
#include <new>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <pbt.hpp>

namespace ct {
using u64 = std::uint64_t;

struct ledger {
    std::unordered_set<const void*> live;
    std::unordered_map<void*, std::size_t> blocks;
    std::string error;
    void bad(const char* what) {
        if (error.empty()) {
            error = what;
        }
    }
    void reset() {
        live.clear();
        blocks.clear();
        error.clear();
    }
};
inline ledger& book() {
    static ledger l;
    return l;
}

/// an object with a value; every special member checks that the objects it uses are alive
template<int Tag>
struct obj {
    int v{};
    obj() {
        born();
    }
    obj(int x) : v(x) { // NOLINT implicit on purpose
        born();
    }
    obj(const obj& o) : v(o.v) {
        o.used("copied from");
        born();
    }
    obj(obj&& o) noexcept : v(o.v) {
        o.used("moved from");
        o.v = -777;
        born();
    }
    obj& operator=(const obj& o) {
        used("assigned");
        o.used("copied from");
        v = o.v;
        return *this;
    }
    obj& operator=(obj&& o) noexcept {
        used("assigned");
        o.used("moved from");
        int x = o.v;
        o.v = -777;
        v = x;
        return *this;
    }
    ~obj() {
        if (book().live.erase(this) == 0) {
            book().bad("an object was destroyed that was not alive");
        }
        v = -999;
    }
    bool operator==(const obj& o) const {
        used("compared");
        o.used("compared");
        return v == o.v;
    }
    void used(const char* how) const {
        if (!book().live.count(this)) {
            book().bad(how[0] == 'a' ? "assignment to an object that is not alive" : "use of an object that is not alive");
        }
    }

private:
    void born() {
        if (!book().live.insert(this).second) {
            book().bad("an object was constructed over a living one");
        }
    }
};

template<typename T>
struct count_alloc {
    using value_type = T;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    count_alloc() = default;
    template<typename U>
    count_alloc(const count_alloc<U>&) {
    }
    T* allocate(std::size_t n) {
        void* p = ::operator new(n * sizeof(T) + 1, std::align_val_t{ alignof(T) });
        book().blocks[p] = n;
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n) {
        if (p == nullptr) {
            return;
        }
        auto it = book().blocks.find(p);
        if (it == book().blocks.end()) {
            book().bad("memory released that was not allocated");
            return;
        }
        if (it->second != n) {
            book().bad("memory released with another size than it was allocated with");
        }
        book().blocks.erase(it);
        ::operator delete(p, std::align_val_t{ alignof(T) });
    }
    template<typename U>
    bool operator==(const count_alloc<U>&) const {
        return true;
    }
};
} // namespace ct
