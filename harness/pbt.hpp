// Small property-based testing engine: recorded choice sequences, forked workers, crash attribution,
// delta-debugging of failing sequences. No dependency on the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

/// thrown by an oracle when the property is violated
struct fail_exception {
    std::string msg;
};

[[noreturn]] void fail(const std::string& msg);
/// ends the process with a failure report; may be called from any thread
[[noreturn]] void fail_now(const std::string& msg);
/// makes fail() behave like fail_now()
void fail_immediately(bool on);
unsigned worker_index();

/// Source of choices. In generation mode draws come from a PRNG and are recorded; in replay mode they are read
/// back (exhausted input reads as 0, the simplest choice).
class source {
public:
    explicit source(std::uint64_t seed);
    source(const std::uint64_t* data, std::size_t n);

    /// uniform in [0, n)
    std::uint64_t draw(std::uint64_t n);
    /// true with probability num/den; shrinks towards false
    bool chance(unsigned num, unsigned den) {
        return draw(den) >= den - num;
    }
    /// inclusive range, shrinks towards lo
    std::int64_t range(std::int64_t lo, std::int64_t hi) {
        return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    /// biased towards small values in [0, max]
    std::uint64_t small(std::uint64_t max);
    /// index by weight
    std::size_t weighted(std::initializer_list<unsigned> w);
    std::size_t weighted(const std::vector<unsigned>& w);
    template<typename C>
    auto& pick(C& c) {
        return c[draw(c.size())];
    }

    /// Loop control for operation sequences: `while (s.more()) {...}`; marks the beginning of an operation span.
    /// Number of iterations in generation mode is set with set_len.
    void set_len(std::size_t n) {
        len_ = n;
        it_ = 0;
    }
    bool more();
    /// mark a span boundary (deletable unit)
    void mark();

    /// copy every draw into v as well
    void keep(std::vector<std::uint64_t>* v) {
        keep_ = v;
    }
    /// do not record draws of this source as part of the case (used for re-runs inside a case)
    void silence() {
        silent_ = true;
    }
    bool replaying() const {
        return replay_;
    }
    std::size_t drawn() const {
        return count_;
    }
    std::uint64_t digest() const {
        return digest_;
    }

private:
    std::uint64_t next();
    std::vector<std::uint64_t>* keep_{};
    bool silent_{};
    bool replay_{};
    const std::uint64_t* data_{};
    std::size_t n_{};
    std::size_t pos_{};
    std::uint64_t s_[4]{};
    std::size_t len_{};
    std::size_t it_{};
    std::size_t count_{};
    std::uint64_t digest_{ 1469598103934665603ull };
    void record(std::uint64_t v);
};

class ctx {
public:
    ctx(source& s, bool tracing) : src(s), tracing(tracing) {
    }
    source& src;
    bool tracing;
    bool is_nontrivial{};
    std::string trace;
    std::size_t trace_lines{};
    int trace_fd{ -1 };
    std::size_t steps{}; // free counter for harness use (operations executed)

    void label(const char* name, std::uint64_t n = 1) {
        labels[name] += n;
    }
    void nontrivial() {
        is_nontrivial = true;
    }
    void note(const std::string& line);
    std::map<std::string, std::uint64_t> labels;
};

#define PBT_NOTE(c, expr)                     \
    do {                                      \
        if ((c).tracing) {                    \
            std::ostringstream pbt_os;        \
            pbt_os << expr;                   \
            (c).note(pbt_os.str());           \
        }                                     \
    } while (0)

#define PBT_FAIL(expr)                   \
    do {                                 \
        std::ostringstream pbt_os;       \
        pbt_os << expr;                  \
        ::pbt::fail(pbt_os.str());       \
    } while (0)

#define PBT_CHECK(cond, expr)                                    \
    do {                                                         \
        if (!(cond)) {                                           \
            std::ostringstream pbt_os;                           \
            pbt_os << expr << "  [" << #cond << "]";             \
            ::pbt::fail(pbt_os.str());                           \
        }                                                        \
    } while (0)

struct harness {
    const char* prop;         // property id
    const char* name;         // harness name, unique with prop
    void (*fn)(ctx&);         // one case
    std::uint64_t quick;      // number of cases
    std::uint64_t thorough;
    const char* rule;         // how cases are made and what makes one non-trivial
};

struct registrar {
    explicit registrar(const harness& h);
};
std::vector<harness>& harnesses();

int main_(int argc, char** argv);

} // namespace pbt
