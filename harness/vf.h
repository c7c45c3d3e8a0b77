// Harness framework: deterministic case loop, violation recording, coverage accounting.
#pragma once
#include <time.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

typedef std::string Str;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
} // namespace vf
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vf {
inline size_t rawLive() {
    return __sanitizer_get_current_allocated_bytes();
}
#define VF_RAWLIVE 1
#endif
#endif
#ifndef VF_RAWLIVE
inline size_t rawLive() {
    return 0;
}
#endif
// Bytes held by the framework's own bookkeeping, which leak accounting leaves out.
inline size_t& ownBytes() {
    static size_t n = 0;
    return n;
}
struct OwnScope {
    size_t before = rawLive();
    ~OwnScope() {
        ownBytes() += rawLive() - before;
    }
};

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return mix(h);
}
inline uint64_t hashStr(const Str& s, uint64_t h = 1469598103934665603ull) {
    return fnv(s.data(), s.size(), h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {
    }
    uint64_t u64() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint32_t u32() {
        return (uint32_t)(u64() >> 32);
    }
    // [0, n)
    uint32_t below(uint32_t n) {
        return n ? (uint32_t)(u64() % n) : 0;
    }
    // [a, b]
    int64_t range(int64_t a, int64_t b) {
        return a + (int64_t)(u64() % (uint64_t)(b - a + 1));
    }
    bool chance(uint32_t num, uint32_t den) {
        return below(den) < num;
    }
    double unit() {
        return (double) (u64() >> 11) / 9007199254740992.0;
    }
    // log-uniform size in [0, max]
    uint32_t size(uint32_t max) {
        if (max == 0)
            return 0;
        uint32_t bits = 0;
        while ((1ull << bits) <= max)
            bits++;
        uint32_t b = below(bits + 1);
        uint32_t v = b == 0 ? 0 : (uint32_t)((1ull << (b - 1)) + below(1u << (b - 1)));
        return v > max ? below(max + 1) : v;
    }
    template <typename T>
    const T& pick(const std::vector<T>& v) {
        return v[below((uint32_t) v.size())];
    }
    template <typename T, size_t N>
    const T& pick(const T (&v)[N]) {
        return v[below(N)];
    }
};

struct Progress {
    volatile uint64_t caseIdx;
    volatile uint64_t beat;
    char context[8192];
};

struct State {
    uint64_t seed = 1;
    bool thorough = false;
    Str workload, scratch, outPath, exe;
    uint64_t caseIdx = 0;
    FILE* out = nullptr;
    Progress* prog = nullptr;
    bool caseFailed = false;
    int numFails = 0;
    std::map<Str, int> perKey;
    std::map<Str, uint64_t> counters;
    std::map<Str, uint64_t> maxima;
    std::unordered_set<uint64_t> distinct;
    std::vector<Str> samples;
    uint64_t evals = 0;
    pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
};
inline State& st() {
    static State* s = new State;
    return *s;
}

inline Str esc(const char* p, size_t n) {
    Str r;
    char b[8];
    for (size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char) p[i];
        if (c == '\n')
            r += "\\n";
        else if (c == '\t')
            r += "\\t";
        else if (c == '\\')
            r += "\\\\";
        else if (c < 32 || c >= 127) {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else
            r += (char) c;
    }
    return r;
}
inline Str esc(const Str& s) {
    return esc(s.data(), s.size());
}
inline Str vfmt(const char* f, va_list ap) {
    char buf[16384];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline Str fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline Str fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    Str s = vfmt(f, ap);
    va_end(ap);
    return s;
}

inline void finish();

// Describe what is running, for the replay file if the process dies here.
inline void ctx(const Str& s) {
    if (st().prog) {
        size_t n = std::min(s.size(), sizeof(st().prog->context) - 1);
        memcpy(st().prog->context, s.data(), n);
        st().prog->context[n] = 0;
    }
}
inline void beat() {
    if (st().prog)
        st().prog->beat = st().prog->beat + 1;
}

inline void fail(const Str& key, const char* f, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const Str& key, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    Str msg = vfmt(f, ap);
    va_end(ap);
    State& s = st();
    pthread_mutex_lock(&s.mtx);
    s.caseFailed = true;
    int n = ++s.perKey[key];
    if (n <= 2) {
        fprintf(s.out, "V\t%s\t%llu\t%s\n", key.c_str(), (unsigned long long) s.caseIdx,
                esc(msg).c_str());
        fflush(s.out);
    }
    s.numFails++;
    if (s.numFails >= 40) {
        finish();
        _exit(0);
    }
    pthread_mutex_unlock(&s.mtx);
}
inline bool failed() {
    return st().caseFailed;
}
inline void count(const Str& name, uint64_t n = 1) {
    pthread_mutex_lock(&st().mtx);
    {
        OwnScope own;
        st().counters[name] += n;
    }
    pthread_mutex_unlock(&st().mtx);
}
inline void maxOf(const Str& name, uint64_t n) {
    pthread_mutex_lock(&st().mtx);
    {
        OwnScope own;
        uint64_t& v = st().maxima[name];
        if (n > v)
            v = n;
    }
    pthread_mutex_unlock(&st().mtx);
}
inline void distinct(uint64_t h) {
    pthread_mutex_lock(&st().mtx);
    {
        OwnScope own;
        if (st().distinct.size() < 300000)
            st().distinct.insert(h);
    }
    pthread_mutex_unlock(&st().mtx);
}
inline void distinct(const Str& s) {
    distinct(hashStr(s));
}
inline bool wantSample() {
    return st().samples.size() < 2;
}
inline void sample(const Str& s) {
    pthread_mutex_lock(&st().mtx);
    {
        OwnScope own;
        if (st().samples.size() < 2)
            st().samples.push_back(s.size() > 600 ? s.substr(0, 600) + "..." : s);
    }
    pthread_mutex_unlock(&st().mtx);
}
// One evaluated case or input beyond the case loop's own count.
inline void evals(uint64_t n) {
    __atomic_fetch_add(&st().evals, n, __ATOMIC_RELAXED);
}

inline bool thorough() {
    return st().thorough;
}
inline const Str& scratch() {
    return st().scratch;
}

// Give up on the remaining cases of this worker: a failure was recorded and the state is unreliable.
inline void finish();
inline void abandon() {
    finish();
    _exit(0);
}

#define VF_CHECK(cond, key, ...) \
    do { \
        if (!(cond)) { \
            ::vf::fail(key, __VA_ARGS__); \
            return; \
        } \
    } while (0)
#define VF_CHECKR(cond, ret, key, ...) \
    do { \
        if (!(cond)) { \
            ::vf::fail(key, __VA_ARGS__); \
            return ret; \
        } \
    } while (0)
#define VF_EXPECT(cond, key, ...) \
    do { \
        if (!(cond)) { \
            ::vf::fail(key, __VA_ARGS__); \
        } \
    } while (0)

struct Workload {
    const char* name;
    uint64_t quick, thorough;
    void (*fn)(Rng&, uint64_t idx);
    bool serial; // not split over processes
};
inline std::vector<Workload>& workloads() {
    static std::vector<Workload>* w = new std::vector<Workload>;
    return *w;
}
struct Register {
    Register(const Workload& w) {
        workloads().push_back(w);
    }
};
// Registers `void name(vf::Rng& r, uint64_t idx)` with its number of cases per tier.
#define VF_WORKLOAD(name, q, t) \
    static void name(vf::Rng& r, uint64_t idx); \
    static vf::Register name##_reg{vf::Workload{#name, q, t, name, false}}; \
    static void name(vf::Rng& r, uint64_t idx)
#define VF_WORKLOAD_SERIAL(name, q, t) \
    static void name(vf::Rng& r, uint64_t idx); \
    static vf::Register name##_reg{vf::Workload{#name, q, t, name, true}}; \
    static void name(vf::Rng& r, uint64_t idx)

inline void finish() {
    State& s = st();
    fprintf(s.out, "E\t%llu\n", (unsigned long long) s.evals);
    for (auto& c : s.counters)
        fprintf(s.out, "C\t%s\t%llu\n", c.first.c_str(), (unsigned long long) c.second);
    for (auto& c : s.maxima)
        fprintf(s.out, "M\t%s\t%llu\n", c.first.c_str(), (unsigned long long) c.second);
    for (auto& x : s.samples)
        fprintf(s.out, "S\t%s\n", esc(x).c_str());
    for (uint64_t h : s.distinct)
        fprintf(s.out, "D\t%llx\n", (unsigned long long) h);
    fprintf(s.out, "F\n");
    fflush(s.out);
}

inline int mainLoop(int argc, char** argv) {
    State& s = st();
    s.exe = argv[0];
    uint64_t from = 0, to = ~0ull;
    Str progPath;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        Str a = argv[i];
        auto next = [&]() { return Str(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list")
            list = true;
        else if (a == "--w")
            s.workload = next();
        else if (a == "--from")
            from = strtoull(next().c_str(), 0, 10);
        else if (a == "--to")
            to = strtoull(next().c_str(), 0, 10);
        else if (a == "--seed")
            s.seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--thorough")
            s.thorough = true;
        else if (a == "--out")
            s.outPath = next();
        else if (a == "--progress")
            progPath = next();
        else if (a == "--scratch")
            s.scratch = next();
    }
    if (list) {
        for (auto& w : workloads())
            printf("%s %llu %llu %d\n", w.name, (unsigned long long) w.quick,
                   (unsigned long long) w.thorough, (int) w.serial);
        return 0;
    }
    s.out = s.outPath.empty() ? stdout : fopen(s.outPath.c_str(), "a");
    if (!s.out)
        return 99;
    if (!progPath.empty()) {
        int fd = open(progPath.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0)
            return 99;
        s.prog = (Progress*) mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    for (auto& w : workloads()) {
        if (s.workload != w.name)
            continue;
        uint64_t n = s.thorough ? w.thorough : w.quick;
        if (to < n)
            n = to;
        time_t firstFail = 0;
        for (uint64_t i = from; i < n; i++) {
            s.caseIdx = i;
            s.caseFailed = false;
            if (s.prog) {
                s.prog->caseIdx = i;
                s.prog->context[0] = 0;
                s.prog->beat = s.prog->beat + 1;
            }
            Rng r(mix(s.seed * 1000003ull + i) ^ hashStr(w.name));
            s.evals++;
            w.fn(r, i);
            // Failing cases can take long (e.g. each waits for something that won't happen).
            if (s.numFails && !firstFail)
                firstFail = time(nullptr);
            if (firstFail && time(nullptr) - firstFail > 20)
                break;
        }
        finish();
        return 0;
    }
    return 98;
}

} // namespace vf

#define VF_MAIN() \
    int main(int argc, char** argv) { \
        return vf::mainLoop(argc, argv); \
    }

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#ifndef VF_ASAN
#define VF_ASAN 0
#endif
#ifndef VF_TSAN
#define VF_TSAN 0
#endif
