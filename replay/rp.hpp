// Common part of the replay programs: runs generated cases of one property
// against the real code and reports the first one that violates it.
#ifndef RP_HPP
#define RP_HPP
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int upto(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }          // [0,n)
    int in(int a, int b) { return a + upto(b - a + 1); }                        // [a,b]
    bool chance(int pct) { return upto(100) < pct; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
};

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };

static char g_desc[1 << 20];
static size_t g_desc_len = 0;
static char g_out[4096];
static char g_head[512];

inline void desc_reset() { g_desc_len = 0; g_desc[0] = 0; }
inline void desc(const std::string& s) {
    size_t n = std::min(s.size(), sizeof(g_desc) - 1 - g_desc_len);
    memcpy(g_desc + g_desc_len, s.data(), n);
    g_desc_len += n;
    g_desc[g_desc_len] = 0;
}
template <class T> std::string str(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template <class T> std::string str(const std::vector<T>& v) {
    std::string r = "[";
    size_t n = 0;
    for (auto& x : v) { if (r.size() > 1) r += " "; if (++n > 400) { r += "...(" + str(v.size()) + ")"; break; } r += str(x); }
    return r + "]";
}
template <class K, class V> std::string str(const std::map<K, V>& m) {
    std::string r = "{";
    for (auto& x : m) { if (r.size() > 1) r += ", "; r += str(x.first) + ":" + str(x.second); }
    return r + "}";
}
#define FAIL(msg) throw Failure(std::string() + (msg))
#define CHECK(c, msg) do { if (!(c)) FAIL(msg); } while (0)

inline void write_report(const char* what) {
    int fd = g_out[0] ? open(g_out, O_WRONLY | O_CREAT | O_TRUNC, 0644) : 1;
    if (fd < 0) return;
    auto w = [&](const char* s, size_t n) { ssize_t r = write(fd, s, n); (void) r; };
    w(g_head, strlen(g_head)); w("what: ", 6); w(what, strlen(what)); w("\ninput:\n", 8); w(g_desc, g_desc_len); w("\n", 1);
    if (fd != 1) close(fd);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static volatile int g_dead = 0;
static void on_death() { if (!g_dead) { g_dead = 1; write_report("the sanitizer stopped the program (memory error or undefined behaviour)"); } }
static void on_signal(int s) {
    if (!g_dead) {
        g_dead = 1;
        write_report(s == SIGVTALRM ? "no answer within the time limit for one case" :
                     s == SIGABRT ? "aborted (failed assertion, or terminate)" : "crash");
    }
    _exit(1);
}

// processor time, so that a busy machine makes no difference
inline void limit(int s) { struct itimerval t; t.it_interval.tv_sec = t.it_interval.tv_usec = t.it_value.tv_usec = 0; t.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
struct Skip {};       // the input is set aside
using CaseFn = std::function<void(uint64_t /*id*/, Rng&)>;
struct Suite { CaseFn fn; uint64_t exhaustive; };   // ids [0,exhaustive) enumerate; others are random
extern std::map<std::string, Suite> suites();
extern std::map<std::string, uint64_t> g_stats;
inline uint64_t& stat(const std::string& k) { return g_stats[k]; }

#ifndef RP_NO_MAIN
std::map<std::string, uint64_t> g_stats;
int main(int argc, char** argv) {
    std::string prop = argc > 1 ? argv[1] : "";
    uint64_t seed = 1, one = ~0ull; double budget = 5; uint64_t maxc = 200000;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        if (a == "--budget") budget = atof(argv[i + 1]);
        if (a == "--cases") maxc = strtoull(argv[i + 1], 0, 10);
        if (a == "--case") one = strtoull(argv[i + 1], 0, 10);
        if (a == "--out") snprintf(g_out, sizeof g_out, "%s", argv[i + 1]);
    }
    auto S = suites();
    if (!S.count(prop)) { fprintf(stderr, "no suite for %s\n", prop.c_str()); return 2; }
    Suite su = S[prop];
    __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_signal); signal(SIGVTALRM, on_signal); signal(SIGFPE, on_signal);
    auto t0 = std::chrono::steady_clock::now();
    uint64_t done = 0, ex = 0, rn = 0;
    std::unordered_set<uint64_t> seen; std::vector<std::string> samples;
    auto one_case = [&](uint64_t id) -> bool {
        desc_reset();
        snprintf(g_head, sizeof g_head, "property: %s\nreplay: %s --seed %llu --case %llu\n", prop.c_str(), prop.c_str(),
                 (unsigned long long) seed, (unsigned long long) id);
        limit(40);
        try {
            Rng r(id < su.exhaustive ? id : id * 1000003ull + seed);
            su.fn(id, r);
        } catch (const Skip&) {
            limit(0); ++g_stats["skipped"]; return true;
        } catch (const Failure& f) {
            write_report(f.what()); printf("FAILED %s\n", f.what()); return false;
        } catch (const std::exception& e) {
            std::string m = std::string("unexpected exception: ") + e.what();
            write_report(m.c_str()); printf("FAILED %s\n", m.c_str()); return false;
        }
        limit(0);
        ++done;
        uint64_t h = 1469598103934665603ull; for (size_t k = 0; k < g_desc_len; ++k) h = (h ^ (unsigned char) g_desc[k]) * 1099511628211ull;
        if (g_desc_len > 24 && seen.size() < 4000000 && seen.insert(h).second && samples.size() < 3 && seen.size() > 40) samples.push_back(std::string(g_desc, std::min<size_t>(g_desc_len, 400)));
        return true;
    };
    if (one != ~0ull) return one_case(one) ? 0 : 1;
    for (;;) {
        if (done >= maxc) break;
        if ((done & 15) == 0 &&
            std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
        uint64_t id = (done % 2 == 0 && ex < su.exhaustive) ? ex++ : su.exhaustive + rn++;
        if (!one_case(id)) { fflush(stdout); _exit(1); }
    }
    printf("{\"cases\": %llu, \"exhaustive_done\": %llu, \"exhaustive_total\": %llu", (unsigned long long) done,
           (unsigned long long) ex, (unsigned long long) su.exhaustive);
    for (auto& s : g_stats) printf(", \"%s\": %llu", s.first.c_str(), (unsigned long long) s.second);
    printf(", \"distinct\": %llu, \"samples\": [", (unsigned long long) seen.size());
    for (size_t k = 0; k < samples.size(); ++k) { printf("%s\"", k ? ", " : ""); for (char c : samples[k]) { if (c == '\n') printf("\\n"); else if (c == '"' || c == '\\') printf("\\%c", c); else if ((unsigned char) c < 32 || (unsigned char) c > 126) printf("?"); else putchar(c); } printf("\""); }
    printf("]}\n");
    return 0;
}
#endif
#endif
