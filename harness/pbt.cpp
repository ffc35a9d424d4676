#include "pbt.hpp"

#include <csignal>
#include <chrono>
#include <fstream>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:symbolize=0:hard_rss_limit_mb=2600:"
           "detect_stack_use_after_return=0:quarantine_size_mb=24:malloc_context_size=8:"
           "handle_abort=0:handle_segv=1:allocator_may_return_null=0:max_allocation_size_mb=1500";
}
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1:exitcode=99";
}

namespace pbt {

namespace {
bool g_fail_now = false;
unsigned g_worker = 0;
} // namespace

void fail(const std::string& msg) {
    if (g_fail_now) {
        fail_now(msg);
    }
    throw fail_exception{ msg };
}
void fail_immediately(bool on) {
    g_fail_now = on;
}
unsigned worker_index() {
    return g_worker;
}

namespace {

constexpr std::size_t MAX_REC = 4u << 20;
constexpr std::size_t MAX_SPAN = 1u << 18;

struct shared_run {
    std::uint64_t n_rec;
    std::uint64_t n_span;
    std::uint64_t fails;
    char msg[8192];
    std::uint64_t rec[MAX_REC];
    std::uint64_t span[MAX_SPAN];
};

struct shared_worker {
    volatile std::uint64_t cur;
    volatile std::uint64_t started;
    volatile std::uint64_t done;
    volatile std::uint64_t state; // 0 running, 1 finished, 2 failed
};

shared_run* g_run = nullptr; // where a child records its choices (nullptr: do not record)

std::uint64_t splitmix(std::uint64_t& x) {
    std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

std::uint64_t rotl(std::uint64_t x, int k) {
    return (x << k) | (x >> (64 - k));
}

double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

int g_case_cpu_seconds = 20;
std::uint64_t g_current_case = 0;

void on_cpu_timeout(int) {
    static const char m[] = "PBT-TIMEOUT: case exceeded its CPU budget\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(97);
}

void arm_cpu_timer(int seconds) {
    itimerval tv{};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

} // namespace

source::source(std::uint64_t seed) {
    for (auto& s : s_) {
        s = splitmix(seed);
    }
}

source::source(const std::uint64_t* data, std::size_t n) : replay_(true), data_(data), n_(n) {
}

std::uint64_t source::next() {
    const std::uint64_t result = rotl(s_[1] * 5, 7) * 9;
    const std::uint64_t t = s_[1] << 17;
    s_[2] ^= s_[0];
    s_[3] ^= s_[1];
    s_[1] ^= s_[2];
    s_[0] ^= s_[3];
    s_[2] ^= t;
    s_[3] = rotl(s_[3], 45);
    return result;
}

void source::record(std::uint64_t v) {
    if (keep_ != nullptr) {
        keep_->push_back(v);
    }
    if (silent_) {
        return;
    }
    if (g_run != nullptr && g_run->n_rec < MAX_REC) {
        g_run->rec[g_run->n_rec++] = v;
    }
    count_++;
    digest_ = (digest_ ^ v) * 1099511628211ull;
}

std::uint64_t source::draw(std::uint64_t n) {
    std::uint64_t v = 0;
    if (replay_) {
        v = pos_ < n_ ? data_[pos_++] : 0;
        v = n ? v % n : v;
    } else {
        v = n ? static_cast<std::uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64) : next();
    }
    record(v);
    return v;
}

std::uint64_t source::small(std::uint64_t max) {
    if (max == 0) {
        return 0;
    }
    unsigned bits = 64 - __builtin_clzll(max);
    auto b = draw(bits + 1); // 0..bits
    std::uint64_t hi = b >= 64 ? max : ((1ull << b) - 1);
    if (hi > max) {
        hi = max;
    }
    return draw(hi + 1);
}

std::size_t source::weighted(std::initializer_list<unsigned> w) {
    std::uint64_t total = 0;
    for (auto x : w) {
        total += x;
    }
    auto r = draw(total);
    std::size_t i = 0;
    for (auto x : w) {
        if (r < x) {
            return i;
        }
        r -= x;
        i++;
    }
    return 0;
}

std::size_t source::weighted(const std::vector<unsigned>& w) {
    std::uint64_t total = 0;
    for (auto x : w) {
        total += x;
    }
    auto r = draw(total);
    for (std::size_t i = 0; i < w.size(); i++) {
        if (r < w[i]) {
            return i;
        }
        r -= w[i];
    }
    return 0;
}

void fail_now(const std::string& msg) {
    if (g_run != nullptr) {
        g_run->fails = 1;
        std::snprintf(g_run->msg, sizeof g_run->msg, "%s", msg.c_str());
    } else {
        std::fprintf(stderr, "PBT-FAIL idx=%llu %s\n", (unsigned long long)g_current_case, msg.c_str());
        std::fflush(stderr);
    }
    _exit(96);
}

void source::mark() {
    if (!silent_ && g_run != nullptr && g_run->n_span < MAX_SPAN) {
        g_run->span[g_run->n_span++] = g_run->n_rec;
    }
}

bool source::more() {
    mark();
    if (replay_) {
        std::uint64_t v = pos_ < n_ ? data_[pos_++] : 0;
        v = v ? 1 : 0;
        record(v);
        return v != 0;
    }
    bool r = it_++ < len_;
    record(r ? 1 : 0);
    return r;
}

void ctx::note(const std::string& line) {
    if (!tracing) {
        return;
    }
    if (trace_lines < 400) {
        trace += line;
        trace += '\n';
        if (trace_fd >= 0) {
            std::string l = line + "\n";
            (void)!write(trace_fd, l.data(), l.size());
        }
    } else if (trace_lines == 400) {
        trace += "...\n";
    }
    trace_lines++;
}

std::vector<harness>& harnesses() {
    static std::vector<harness> h;
    return h;
}

registrar::registrar(const harness& h) {
    harnesses().push_back(h);
}

namespace {

std::uint64_t fnv(const std::string& s) {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}

std::uint64_t case_seed(const harness& h, std::uint64_t seed, std::uint64_t idx) {
    std::uint64_t x = seed * 0x9e3779b97f4a7c15ull + fnv(std::string(h.prop) + "/" + h.name);
    x ^= splitmix(x) + idx * 0xd1342543de82ef95ull;
    return splitmix(x);
}

std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        switch (c) {
        case '"':
            o += "\\\"";
            break;
        case '\\':
            o += "\\\\";
            break;
        case '\n':
            o += "\\n";
            break;
        case '\t':
            o += "\\t";
            break;
        default:
            if (c < 0x20 || c > 0x7e) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else {
                o += static_cast<char>(c);
            }
        }
    }
    return o;
}

struct outcome {
    int kind{}; // 0 ok, 1 oracle failure, 2 crash, 3 timeout
    std::string msg;
    std::vector<std::uint64_t> rec;
    std::vector<std::uint64_t> spans;
    std::string trace;
};

std::string read_file(const std::string& p, std::size_t limit = 1 << 16) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > limit) {
        s.resize(limit);
    }
    return s;
}

std::string crash_summary(int status, const std::string& err) {
    std::ostringstream os;
    if (WIFSIGNALED(status)) {
        os << "killed by signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")";
    } else {
        os << "exit status " << WEXITSTATUS(status);
    }
    std::istringstream is(err);
    std::string line;
    int n = 0;
    while (std::getline(is, line)) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos
            || line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos
            || line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos
            || line.find("PBT-") != std::string::npos || line.find("RSS limit") != std::string::npos) {
            os << "; " << line;
            if (++n == 3) {
                break;
            }
        }
    }
    return os.str();
}

std::string g_tmp; // scratch dir prefix

/// Run `body` in a forked child whose choices go to g_run.
template<typename F>
outcome in_child(F&& body, double wall_limit) {
    std::string errf = g_tmp + ".err";
    std::string trf = g_tmp + ".trace";
    unlink(trf.c_str());
    g_run->n_rec = 0;
    g_run->n_span = 0;
    g_run->fails = 0;
    g_run->msg[0] = 0;
    pid_t pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::exit(2);
    }
    if (pid == 0) {
        int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        signal(SIGPROF, on_cpu_timeout);
        arm_cpu_timer(g_case_cpu_seconds);
        body(trf);
        _exit(0);
    }
    outcome o;
    int status = 0;
    double t0 = now();
    while (true) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            break;
        }
        if (now() - t0 > wall_limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            o.kind = 3;
            o.msg = "case did not finish (wall-clock limit): hang";
            break;
        }
        usleep(now() - t0 < 0.05 ? 200 : 2000);
    }
    o.rec.assign(g_run->rec, g_run->rec + g_run->n_rec);
    o.spans.assign(g_run->span, g_run->span + g_run->n_span);
    o.trace = read_file(trf, 1 << 18);
    if (o.kind == 3) {
        return o;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        o.kind = 0;
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 96) {
        o.kind = 1;
        o.msg = g_run->msg;
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 97) {
        o.kind = 3;
        o.msg = "case exceeded its CPU budget (" + std::to_string(g_case_cpu_seconds) + " s): livelock or hang";
    } else {
        o.kind = 2;
        o.msg = crash_summary(status, read_file(errf, 1 << 20));
    }
    unlink(errf.c_str());
    unlink(trf.c_str());
    return o;
}

/// run one case; returns 0 ok / 96 failure (message in *msg)
int run_case(const harness& h, source& s, bool tracing, std::string& msg, ctx** out = nullptr, int fd = -1) {
    static ctx* holder = nullptr;
    delete holder;
    holder = new ctx(s, tracing);
    holder->trace_fd = fd;
    if (out) {
        *out = holder;
    }
    try {
        h.fn(*holder);
    } catch (const fail_exception& f) {
        msg = f.msg;
        return 96;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return 96;
    }
    return 0;
}

outcome run_choices(const harness& h, const std::vector<std::uint64_t>& choices, bool tracing, double wall = 90) {
    return in_child(
        [&](const std::string& trf) {
            source s(choices.data(), choices.size());
            std::string msg;
            ctx* c = nullptr;
            int fd = tracing ? open(trf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
            int r = run_case(h, s, tracing, msg, &c, fd);
            if (r != 0) {
                std::snprintf(g_run->msg, sizeof g_run->msg, "%s", msg.c_str());
            }
            _exit(r);
        },
        wall);
}

outcome run_seeded(const harness& h, std::uint64_t seed, std::uint64_t first, std::uint64_t last, std::uint64_t step,
    double wall = 90) {
    return in_child(
        [&](const std::string&) {
            for (auto i = first;; i += step) {
                arm_cpu_timer(g_case_cpu_seconds);
                g_run->n_rec = 0;
                g_run->n_span = 0;
                source s(case_seed(h, seed, i));
                std::string msg;
                int r = run_case(h, s, false, msg);
                if (r != 0) {
                    std::snprintf(g_run->msg, sizeof g_run->msg, "%s", msg.c_str());
                    _exit(r);
                }
                if (i >= last) {
                    _exit(0);
                }
            }
        },
        wall);
}

/// Delta-debug a failing choice sequence. Any failing outcome counts, as long as a timeout is not turned into a slow
/// search (timeouts are only accepted when the original was one).
outcome shrink(const harness& h, outcome best, double budget) {
    double t0 = now();
    bool timeouts = best.kind == 3;
    auto try_ = [&](const std::vector<std::uint64_t>& cand) -> bool {
        if (now() - t0 > budget) {
            return false;
        }
        auto o = run_choices(h, cand, false, timeouts ? 90 : 30);
        if (o.kind == 0 || (o.kind == 3 && !timeouts)) {
            return false;
        }
        // the record of what was consumed is the canonical form
        if (o.rec.size() > best.rec.size()) {
            return false;
        }
        if (o.rec.size() == best.rec.size() && o.rec >= best.rec) {
            return false;
        }
        best = std::move(o);
        return true;
    };
    bool progress = true;
    int rounds = 0;
    while (progress && now() - t0 < budget && rounds++ < 8) {
        progress = false;
        // 1. remove blocks of operation spans
        std::size_t chunk = std::max<std::size_t>(1, best.spans.size() / 2);
        while (chunk >= 1 && now() - t0 < budget) {
            bool any = false;
            std::size_t i = 0;
            while (i < best.spans.size() && now() - t0 < budget) {
                std::size_t j = std::min(i + chunk, best.spans.size());
                std::size_t b = best.spans[i];
                std::size_t e = j < best.spans.size() ? best.spans[j] : best.rec.size();
                if (e <= b) {
                    i++;
                    continue;
                }
                std::vector<std::uint64_t> cand(best.rec.begin(), best.rec.begin() + b);
                cand.insert(cand.end(), best.rec.begin() + e, best.rec.end());
                if (try_(cand)) {
                    any = true;
                } else {
                    i += chunk;
                }
            }
            progress |= any;
            if (!any || chunk == 1) {
                if (chunk == 1) {
                    if (!any) {
                        break;
                    }
                    continue;
                }
                chunk /= 2;
            }
        }
        // 2. truncate the tail and zero blocks
        for (std::size_t blk = std::max<std::size_t>(1, best.rec.size() / 2); now() - t0 < budget; blk /= 2) {
            for (std::size_t i = 0; i < best.rec.size() && now() - t0 < budget; i += blk) {
                auto cand = best.rec;
                bool nz = false;
                for (std::size_t k = i; k < std::min(i + blk, cand.size()); k++) {
                    nz |= cand[k] != 0;
                    cand[k] = 0;
                }
                if (nz) {
                    progress |= try_(cand);
                }
            }
            if (blk <= 1) {
                break;
            }
        }
        // 3. lower single values
        for (std::size_t i = 0; i < best.rec.size() && now() - t0 < budget; i++) {
            std::uint64_t lo = 0;
            while (i < best.rec.size() && best.rec[i] > lo && now() - t0 < budget) {
                auto cand = best.rec;
                auto v = cand[i];
                cand[i] = lo + (v - lo) / 2;
                if (try_(cand)) {
                    progress = true;
                } else {
                    if ((v - lo) / 2 == 0) {
                        break;
                    }
                    lo = lo + (v - lo) / 2 + 1;
                }
            }
        }
    }
    return best;
}

struct worker_result {
    std::uint64_t evals{}, nontrivial{};
    std::map<std::string, std::uint64_t> labels;
    std::unordered_set<std::uint64_t> digests;
    std::vector<std::string> samples;
};

void worker_main(const harness& h, std::uint64_t seed, unsigned w, unsigned nw, std::uint64_t cases, double deadline,
    shared_worker* sw, const std::string& outf) {
    worker_result r;
    signal(SIGPROF, on_cpu_timeout);
    for (std::uint64_t i = w; i < cases; i += nw) {
        if (now() > deadline) {
            break;
        }
        sw->cur = i;
        g_current_case = i;
        sw->started = sw->started + 1;
        arm_cpu_timer(g_case_cpu_seconds);
        source s(case_seed(h, seed, i));
        std::string msg;
        ctx* c = nullptr;
        bool tracing = r.samples.size() < 2 && w < 4;
        int rc = run_case(h, s, tracing, msg, &c);
        if (rc != 0) {
            sw->state = 2;
            std::fprintf(stderr, "PBT-FAIL idx=%llu %s\n", (unsigned long long)i, msg.c_str());
            _exit(96);
        }
        r.evals++;
        for (auto& [k, v] : c->labels) {
            r.labels[k] += v;
        }
        if (c->is_nontrivial) {
            r.nontrivial++;
            r.digests.insert(s.digest());
            if (tracing && c->trace_lines > 0 && c->trace_lines <= 120) {
                r.samples.push_back(c->trace);
            }
        }
        sw->done = r.evals;
    }
    std::ofstream f(outf, std::ios::binary);
    f << r.evals << ' ' << r.nontrivial << ' ' << r.labels.size() << ' ' << r.digests.size() << ' ' << r.samples.size()
      << '\n';
    for (auto& [k, v] : r.labels) {
        f << v << ' ' << k << '\n';
    }
    for (auto d : r.digests) {
        f << d << '\n';
    }
    for (auto& s : r.samples) {
        f << s.size() << '\n' << s << '\n';
    }
    f.close();
    sw->state = 1;
    _exit(0);
}

void read_worker(const std::string& p, worker_result& r) {
    std::ifstream f(p, std::ios::binary);
    std::size_t e = 0, n = 0, nl = 0, nd = 0, ns = 0;
    f >> e >> n >> nl >> nd >> ns;
    r.evals += e;
    r.nontrivial += n;
    for (std::size_t i = 0; i < nl; i++) {
        std::uint64_t v{};
        std::string k;
        f >> v;
        f.get();
        std::getline(f, k);
        r.labels[k] += v;
    }
    for (std::size_t i = 0; i < nd; i++) {
        std::uint64_t d{};
        f >> d;
        r.digests.insert(d);
    }
    for (std::size_t i = 0; i < ns; i++) {
        std::size_t len{};
        f >> len;
        f.get();
        std::string s(len, 0);
        f.read(s.data(), static_cast<std::streamsize>(len));
        r.samples.push_back(s);
    }
}

void write_replay(const std::string& path, const harness& h, std::uint64_t seed, std::uint64_t idx, const outcome& o,
    std::uint64_t first, std::uint64_t last, std::uint64_t step) {
    std::ofstream f(path);
    f << "property " << h.prop << "\nharness " << h.name << "\nseed " << seed << "\ncase " << idx << "\n";
    f << "range " << first << ' ' << last << ' ' << step << "\n";
    f << "kind " << (o.kind == 1 ? "oracle" : o.kind == 2 ? "crash" : "timeout") << "\n";
    std::string m = o.msg;
    for (auto& ch : m) {
        if (ch == '\n') {
            ch = ' ';
        }
    }
    f << "message " << m << "\n";
    f << "choices " << o.rec.size();
    for (auto v : o.rec) {
        f << ' ' << v;
    }
    f << "\ntrace\n" << o.trace;
}

const harness* find_harness(const std::string& prop, const std::string& name) {
    for (auto& h : harnesses()) {
        if (prop == h.prop && (name.empty() || name == h.name)) {
            return &h;
        }
    }
    return nullptr;
}

int replay_file(const std::string& path) {
    std::ifstream f(path);
    std::string word, prop, name;
    std::uint64_t seed = 0, first = 0, last = 0, step = 0;
    std::vector<std::uint64_t> choices;
    while (f >> word) {
        if (word == "property") {
            f >> prop;
        } else if (word == "harness") {
            f >> name;
        } else if (word == "seed") {
            f >> seed;
        } else if (word == "range") {
            f >> first >> last >> step;
        } else if (word == "choices") {
            std::size_t n = 0;
            f >> n;
            choices.resize(n);
            for (auto& c : choices) {
                f >> c;
            }
            break;
        } else {
            std::getline(f, word);
        }
    }
    const auto* h = find_harness(prop, name);
    if (h == nullptr) {
        std::fprintf(stderr, "unknown harness %s/%s\n", prop.c_str(), name.c_str());
        return 2;
    }
    outcome o = step != 0 ? run_seeded(*h, seed, first, last, step, 800) : run_choices(*h, choices, true, 800);
    std::printf("%s", o.trace.c_str());
    if (o.kind == 0) {
        std::printf("replay: case passed\n");
        return 0;
    }
    std::printf("replay: %s\n", o.msg.c_str());
    return 1;
}

} // namespace

int main_(int argc, char** argv) {
    std::string prop, name, tier = "quick", out, replay, replay_dir = ".";
    std::uint64_t seed = 1, cases = 0;
    unsigned nw = 8;
    double scale = 1, max_seconds = 300, shrink_seconds = 60;
    std::int64_t only = -1;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") {
            prop = val();
        } else if (a == "--harness") {
            name = val();
        } else if (a == "--tier") {
            tier = val();
        } else if (a == "--seed") {
            seed = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--cases") {
            cases = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--scale") {
            scale = std::strtod(val().c_str(), nullptr);
        } else if (a == "--workers") {
            nw = static_cast<unsigned>(std::strtoul(val().c_str(), nullptr, 10));
        } else if (a == "--max-seconds") {
            max_seconds = std::strtod(val().c_str(), nullptr);
        } else if (a == "--shrink-seconds") {
            shrink_seconds = std::strtod(val().c_str(), nullptr);
        } else if (a == "--out") {
            out = val();
        } else if (a == "--replay") {
            replay = val();
        } else if (a == "--replay-dir") {
            replay_dir = val();
        } else if (a == "--case") {
            only = std::strtoll(val().c_str(), nullptr, 10);
        } else if (a == "--list") {
            list = true;
        }
    }
    if (list) {
        for (auto& h : harnesses()) {
            std::printf("%s %s\n", h.prop, h.name);
        }
        return 0;
    }
    // deterministic addresses where the kernel lets us (replays do not depend on it)
    if (!getenv("PBT_NOASLR_TRIED")) {
        setenv("PBT_NOASLR_TRIED", "1", 1);
        if (personality(static_cast<unsigned long>(personality(0xffffffff)) | ADDR_NO_RANDOMIZE) != -1) {
            execv("/proc/self/exe", argv);
        }
    }
    g_run = static_cast<shared_run*>(
        mmap(nullptr, sizeof(shared_run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_tmp = (out.empty() ? std::string("/tmp/pbt") : out) + "." + std::to_string(getpid());
    rlimit rl{ 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (!replay.empty()) {
        return replay_file(replay);
    }
    const auto* hp = find_harness(prop, name);
    if (hp == nullptr) {
        std::fprintf(stderr, "no harness for %s %s\n", prop.c_str(), name.c_str());
        return 2;
    }
    const harness& h = *hp;
    if (cases == 0) {
        cases = tier == "thorough" ? h.thorough : h.quick;
        cases = static_cast<std::uint64_t>(static_cast<double>(cases) * scale);
    }
    if (only >= 0) {
        auto o = run_seeded(h, seed, only, only, 1);
        if (o.kind == 0) {
            o = run_choices(h, o.rec, true);
        } else {
            auto o2 = run_choices(h, o.rec, true);
            o.trace = o2.trace;
        }
        std::printf("%s\nkind=%d %s\n", o.trace.c_str(), o.kind, o.msg.c_str());
        return o.kind != 0;
    }
    double t0 = now();
    auto* sw = static_cast<shared_worker*>(mmap(
        nullptr, sizeof(shared_worker) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(nw);
    auto* saved = g_run;
    std::fflush(stdout);
    for (unsigned w = 0; w < nw; w++) {
        pids[w] = fork();
        if (pids[w] == 0) {
            g_run = nullptr;
            g_worker = w;
            std::string errf = g_tmp + ".w" + std::to_string(w) + ".err";
            int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2);
            dup2(fd, 1);
            worker_main(h, seed, w, nw, cases, t0 + max_seconds, &sw[w], g_tmp + ".w" + std::to_string(w));
        }
    }
    g_run = saved;
    bool failed = false;
    std::uint64_t fail_idx = 0;
    unsigned fail_w = 0;
    std::string fail_msg;
    unsigned alive = nw;
    std::vector<std::uint64_t> last_seen(nw, 0);
    std::vector<double> last_change(nw, now());
    while (alive > 0 && !failed) {
        int status = 0;
        pid_t p = waitpid(-1, &status, WNOHANG);
        if (p <= 0) {
            usleep(5000);
            for (unsigned w = 0; w < nw; w++) {
                if (pids[w] == 0) {
                    continue;
                }
                if (sw[w].started != last_seen[w]) {
                    last_seen[w] = sw[w].started;
                    last_change[w] = now();
                } else if (now() - last_change[w] > 90) {
                    failed = true;
                    fail_idx = sw[w].cur;
                    fail_w = w;
                    fail_msg = "case made no progress for 90 s (hang)";
                }
            }
            continue;
        }
        for (unsigned w = 0; w < nw; w++) {
            if (pids[w] == p) {
                pids[w] = 0;
                alive--;
                if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
                    failed = true;
                    fail_idx = sw[w].cur;
                    fail_w = w;
                    auto err = read_file(g_tmp + ".w" + std::to_string(w) + ".err", 1 << 20);
                    auto pos = err.rfind("PBT-FAIL");
                    fail_msg = pos != std::string::npos ? err.substr(pos, 2000) : crash_summary(status, err);
                }
            }
        }
    }
    std::uint64_t done_total = 0;
    for (unsigned w = 0; w < nw; w++) {
        if (pids[w] != 0) {
            kill(pids[w], SIGKILL);
            waitpid(pids[w], nullptr, 0);
        }
        done_total += sw[w].done;
    }
    worker_result res;
    for (unsigned w = 0; w < nw; w++) {
        auto f = g_tmp + ".w" + std::to_string(w);
        read_worker(f, res);
        unlink(f.c_str());
        unlink((f + ".err").c_str());
    }
    int rc = 0;
    std::string vmsg, vpath;
    if (failed) {
        std::printf("case %llu of %s/%s failed: %s\n", (unsigned long long)fail_idx, h.prop, h.name, fail_msg.c_str());
        std::fflush(stdout);
        outcome o = run_seeded(h, seed, fail_idx, fail_idx, 1);
        std::uint64_t first = 0, last = 0, step = 0;
        if (o.kind != 0) {
            std::printf("reproduced; shrinking %zu choices\n", o.rec.size());
            std::fflush(stdout);
            o = shrink(h, o, shrink_seconds);
            auto t = run_choices(h, o.rec, true);
            int same = t.kind != 0;
            for (int k = 0; k < 2; k++) {
                same += run_choices(h, o.rec, false).kind != 0;
            }
            if (!t.trace.empty()) {
                o.trace = t.trace;
            }
            std::printf("shrunk to %zu choices, replayed %d/3\n", o.rec.size(), same);
        } else {
            // depends on earlier cases of the same process: replay a suffix of that worker's sequence
            for (std::uint64_t k : { std::uint64_t(4), std::uint64_t(32), std::uint64_t(256), std::uint64_t(1) << 40 }) {
                std::uint64_t n = fail_idx / nw;
                first = n > k ? fail_idx - k * nw : fail_w;
                o = run_seeded(h, seed, first, fail_idx, nw, 600);
                if (o.kind != 0) {
                    last = fail_idx;
                    step = nw;
                    break;
                }
                if (first == fail_w) {
                    break;
                }
            }
        }
        if (o.kind == 0) {
            // could not be reproduced: not believed
            std::printf("ERROR: failure did not reproduce: %s\n", fail_msg.c_str());
            rc = 3;
        } else {
            rc = 1;
            vmsg = o.msg;
            char b[64];
            std::snprintf(b, sizeof b, "%s-%s-%016llx.txt", h.prop, h.name,
                (unsigned long long)fnv(o.msg + std::to_string(o.rec.size()) + std::to_string(fail_idx)));
            vpath = replay_dir + "/" + b;
            write_replay(vpath, h, seed, fail_idx, o, first, last, step);
            std::printf("%s\nmessage: %s\nreplay: %s\n", o.trace.c_str(), o.msg.c_str(), vpath.c_str());
        }
    }
    double wall = now() - t0;
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"harness\":\"" << h.name << "\",\"rule\":\"" << json_escape(h.rule)
          << "\",\"evaluations\":" << std::max<std::uint64_t>(res.evals, done_total)
          << ",\"nontrivial\":" << res.nontrivial << ",\"distinct_nontrivial\":" << res.digests.size()
          << ",\"wall_s\":" << wall << ",\"status\":" << rc << ",\"message\":\"" << json_escape(vmsg)
          << "\",\"replay\":\"" << json_escape(vpath) << "\",\"labels\":{";
        bool firstl = true;
        for (auto& [k, v] : res.labels) {
            f << (firstl ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
            firstl = false;
        }
        f << "},\"samples\":[";
        std::size_t ns = 0;
        for (auto& s : res.samples) {
            if (ns == 3) {
                break;
            }
            f << (ns ? "," : "") << "\"" << json_escape(s) << "\"";
            ns++;
        }
        f << "]}\n";
    }
    std::printf("%s/%s: %llu cases, %llu nontrivial, %zu distinct, %.1fs, rc=%d\n", h.prop, h.name,
        (unsigned long long)std::max<std::uint64_t>(res.evals, done_total), (unsigned long long)res.nontrivial,
        res.digests.size(), wall, rc);
    return rc;
}

} // namespace pbt

int main(int argc, char** argv) {
    return pbt::main_(argc, argv);
}
