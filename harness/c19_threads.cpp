// Threads, thread-locals, lazy initialisation, atomics and shared reference counts.
#include "plyvf.h"
#include "threadvf.h"
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/Owned.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/thread/RaceDetector.h>
#include <ply-runtime/thread/TID.h>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/thread/ThreadLocal.h>
#include <ply-runtime/thread/impl/Mutex_LazyInit.h>
#include <ply-runtime/thread/impl/Thread_CPP11.h>
#include <atomic>
#include <errno.h>
#include <signal.h>
using namespace ply;
using vf::Tracked;

// Thread creation fails on demand.
static std::atomic<int> failCreates{0};
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    if (failCreates.load() > 0) {
        failCreates--;
        return EAGAIN;
    }
    return __real_pthread_create(t, a, f, p);
}

// Runs a case on a thread of its own so that one that hangs is reported instead of stopping the harness.
template <typename F>
static void guarded(const char* id, F f) {
    vf::Team team;
    team.add(f);
    int stuck = team.join(25);
    VF_CHECK(stuck == 0, id, "the case did not finish: a thread never ran or a join never returned");
}

struct Probe { // counts its own copies, for callables
    std::atomic<int>* live;
    Probe(std::atomic<int>* l) : live{l} {
        (*live)++;
    }
    Probe(const Probe& o) : live{o.live} {
        (*live)++;
    }
    ~Probe() {
        (*live)--;
    }
};

template <class Thr>
static void runThreads(vf::Rng& r) {
    struct Slot {
        u32 runs = 0; // plain: published by join
        u32 sum = 0;
        u64 tid = 0;
        std::vector<u32> out;
    };
    u32 n = 1 + r.below(8), rounds = 1 + r.below(3);
    std::atomic<int> live{0};
    {
        std::vector<std::unique_ptr<Thr>> threads;
        for (u32 i = 0; i < n; i++)
            threads.emplace_back(new Thr);
        std::vector<Slot> slots(n);
        for (u32 round = 0; round < rounds; round++) {
            std::vector<u32> started;
            for (u32 i = 0; i < n; i++) {
                VF_CHECK(!threads[i]->isValid(), "thread-valid", "a thread that was not started or was joined is valid");
                slots[i].runs = 0;
                slots[i].sum = 0;
                slots[i].out.assign(8, i); // plain data written before the start is visible to the thread
                u32 seed = r.u32(), work = r.below(300);
                Slot* s = &slots[i];
                Probe probe{&live};
                auto body = [s, seed, work, probe, i] {
                    vf::Rng q{seed};
                    vf::jitter(q);
                    s->runs++;
                    s->tid = TID::getCurrentThreadID();
                    for (u32 j = 0; j < work; j++)
                        s->sum += j ^ s->out[j % 8];
                    s->out[seed % 8] = seed;
                    vf::jitter(q);
                    s->runs += 1000000;
                };
                if (r.chance(1, 2))
                    threads[i]->run(std::move(body));
                else
                    threads[i].reset(new Thr{std::move(body)});
                VF_CHECK(threads[i]->isValid(), "thread-valid", "a started thread is not valid");
                started.push_back(i);
                // (the callable moved into the thread is a copy; this one's probe goes away here)
                (void) work;
            }
            // joined in any order, some from another thread
            while (!started.empty()) {
                u32 k = r.below((u32) started.size()), i = started[k];
                started.erase(started.begin() + k);
                if (r.chance(1, 4)) {
                    Thr joiner;
                    Thr* t = threads[i].get();
                    joiner.run([t] { t->join(); });
                    joiner.join();
                } else
                    threads[i]->join();
                VF_CHECK(!threads[i]->isValid(), "thread-valid", "a joined thread is still valid");
                Slot& s = slots[i];
                VF_CHECK(s.runs == 1000001, "thread-once",
                         "after join, the thread's function had run %u times and reached its end %u times",
                         s.runs % 1000000, s.runs / 1000000);
                vf::evals(1);
            }
        }
    }
    VF_CHECK(live.load() == 0, "thread-callable", "%d copies of the threads' functions were never destroyed (or too many)",
             live.load());
    vf::count("threads started", n * rounds);
    vf::distinct(vf::mix(n * 64 + rounds));
}
VF_WORKLOAD(run, 500, 8000) {
    vf::Rng q{r.u32()};
    guarded("thread-run", [&] { runThreads<Thread_POSIX>(q); });
}
VF_WORKLOAD(run_cpp11, 200, 3000) {
    vf::Rng q{r.u32()};
    guarded("thread-run", [&] { runThreads<Thread_CPP11>(q); });
}

// A Thread destroyed without being joined lets its function run to the end, once.
template <class Thr>
static void runDetached(vf::Rng& r) {
    u32 n = 1 + r.below(8);
    std::atomic<int> live{0};
    std::vector<std::unique_ptr<std::atomic<u32>>> runs;
    for (u32 i = 0; i < n; i++)
        runs.emplace_back(new std::atomic<u32>{0});
    std::shared_ptr<std::atomic<bool>> go(new std::atomic<bool>(false));
    bool hold = r.chance(1, 3); // the functions go on until every Thread object is gone
    for (u32 i = 0; i < n; i++) {
        std::atomic<u32>* c = runs[i].get();
        Probe probe{&live};
        u32 us = r.below(2000);
        auto f = [c, probe, us, hold, go] {
            while (hold && !go->load())
                vf::nap(100);
            vf::nap(us);
            (*c)++;
        };
        if (r.chance(1, 2)) {
            Thr t{std::move(f)};
            if (r.chance(1, 2))
                vf::nap(r.below(2000));
        } else {
            Thr t;
            t.run(std::move(f));
        }
    }
    *go = true;
    uint64_t until = vf::nowNs() + 15000000000ull;
    for (;;) {
        bool all = live.load() == 0;
        for (u32 i = 0; i < n; i++)
            all = all && runs[i]->load() > 0;
        if (all || vf::nowNs() > until)
            break;
        vf::nap(200);
    }
    for (u32 i = 0; i < n; i++)
        VF_CHECK(runs[i]->load() == 1, "thread-once", "a detached thread's function ran %u times", runs[i]->load());
    VF_CHECK(live.load() == 0, "thread-callable", "%d copies of a detached thread's function remain", live.load());
    vf::count("threads detached", n);
    vf::evals(n);
}
VF_WORKLOAD(detached, 120, 2000) {
    vf::Rng q{r.u32()};
    guarded("thread-run", [&] { runDetached<Thread_POSIX>(q); });
}
VF_WORKLOAD(detached_cpp11, 50, 800) {
    vf::Rng q{r.u32()};
    guarded("thread-run", [&] { runDetached<Thread_CPP11>(q); });
}

// The system refuses to create a thread: nothing runs, nothing is leaked, and the object stays usable.
VF_WORKLOAD_SERIAL(refused, 60, 600) {
    std::atomic<int> live{0};
    std::atomic<u32> runs{0};
    {
        Thread_POSIX t;
        Probe probe{&live};
        failCreates = 1;
        t.run([probe, &runs] { runs++; });
        failCreates = 0;
        vf::ctx("pthread_create failed");
        VF_CHECK(!t.isValid(), "thread-refused", "a thread that could not be created claims to be valid");
        VF_CHECK(runs.load() == 0 && live.load() == 1, "thread-refused", "its function ran %u times, %d copies remain",
                 runs.load(), live.load() - 1);
        if (r.chance(1, 2)) {
            t.run([probe, &runs] { runs++; });
            VF_CHECK(t.isValid(), "thread-refused", "the next thread could not be started");
            t.join();
            VF_CHECK(runs.load() == 1, "thread-refused", "the next thread's function ran %u times", runs.load());
        }
    }
    VF_CHECK(live.load() == 0, "thread-refused", "%d copies of the function remain", live.load());
    vf::count("refused creations", 1);
    vf::evals(1);
    vf::distinct(vf::mix(runs.load()));
}

VF_WORKLOAD(tids, 100, 1000) {
    u32 n = 2 + r.below(7);
    std::atomic<u32> arrived{0};
    std::vector<u64> ids(n), again(n);
    vf::Team team;
    for (u32 i = 0; i < n; i++)
        team.add([&, i] {
            ids[i] = TID::getCurrentThreadID();
            arrived++;
            while (arrived.load() < n)
                sched_yield();
            again[i] = TID::getCurrentThreadID();
        });
    VF_CHECK(team.join() == 0, "thread-run", "stuck");
    std::set<u64> all(ids.begin(), ids.end());
    all.insert(TID::getCurrentThreadID());
    VF_CHECK(all.size() == n + 1, "tid", "%u live threads have %zu distinct IDs", n + 1, all.size());
    VF_CHECK(ids == again, "tid", "a thread's ID changed");
    VF_CHECK((pid_t) TID::getCurrentProcessID() == getpid(), "tid", "process ID");
    vf::evals(n);
    vf::distinct(n);
}

static void onUsr1(int) {
}
VF_WORKLOAD(sleep, 40, 400) {
    struct sigaction sa = {};
    sa.sa_handler = onUsr1;
    sigaction(SIGUSR1, &sa, nullptr);
    u32 ms = r.below(30);
    bool disturb = r.chance(1, 2);
    std::atomic<bool> done{false};
    std::atomic<bool> ready{false};
    pthread_t sleeper;
    std::shared_ptr<uint64_t> took(new uint64_t(0));
    vf::Team team;
    team.add([&, took] {
        sleeper = pthread_self();
        ready = true;
        uint64_t t0 = vf::nowNs();
        Thread::sleepMillis(ms);
        *took = vf::nowNs() - t0;
        done = true;
        while (disturb && done.load()) // stay alive for pthread_kill
            vf::nap(100);
    });
    if (disturb) {
        while (!ready.load())
            sched_yield();
        for (u32 i = 0; i < 6 && !done.load(); i++) { // (a sleep that restarts from the beginning ends later)
            vf::nap(1000 + r.below(4000));
            pthread_kill(sleeper, SIGUSR1);
        }
        uint64_t until = vf::nowNs() + 20000000000ull;
        while (!done.load() && vf::nowNs() < until)
            vf::nap(200);
        VF_CHECK(done.load(), "sleep", "sleepMillis(%u) interrupted by signals did not return", ms);
        done = false;
    }
    VF_CHECK(team.join() == 0, "sleep", "sleepMillis(%u) did not return", ms);
    VF_CHECK(*took + 500000 >= (uint64_t) ms * 1000000, "sleep", "sleepMillis(%u) returned after %.3f ms", ms, *took / 1e6);
    vf::evals(1);
    vf::distinct(ms * 2 + disturb);
}

// Each thread has its own value, zero at first.
enum class Color : u8 { None, Red, Green, Blue = 255 };
template <typename T>
struct Gen;
template <>
struct Gen<s32> {
    static s32 get(vf::Rng& r) {
        return r.chance(1, 4) ? (s32) 0x80000000 : (s32) r.u32();
    }
};
template <>
struct Gen<u64> {
    static u64 get(vf::Rng& r) {
        return r.u64();
    }
};
template <>
struct Gen<s8> {
    static s8 get(vf::Rng& r) {
        return (s8) r.u32();
    }
};
template <>
struct Gen<bool> {
    static bool get(vf::Rng& r) {
        return r.chance(1, 2);
    }
};
template <>
struct Gen<Color> {
    static Color get(vf::Rng& r) {
        static const Color all[] = {Color::None, Color::Red, Color::Green, Color::Blue};
        return r.pick(all);
    }
};
static int anchors[16];
template <>
struct Gen<int*> {
    static int* get(vf::Rng& r) {
        return r.chance(1, 4) ? nullptr : anchors + r.below(16);
    }
};
template <>
struct Gen<const char*> {
    static const char* get(vf::Rng& r) {
        return r.chance(1, 4) ? nullptr : (const char*) (anchors + r.below(16));
    }
};
template <typename T>
static bool scopes(ThreadLocal<T>& a, ThreadLocal<T>& b, T& ma, T& mb, vf::Rng& r, u32 depth, vf::Str& err) {
    for (u32 i = r.below(6); i > 0; i--) {
        if (a.load() != ma || b.load() != mb) {
            err = vf::fmt("a thread reads a value that is not its own last store (depth %u)", depth);
            return false;
        }
        switch (r.below(4)) {
            case 0:
                a.store(ma = Gen<T>::get(r));
                break;
            case 1:
                b.store(mb = Gen<T>::get(r));
                break;
            case 2:
                if (depth < 5) {
                    T v = Gen<T>::get(r), saved = ma;
                    {
                        auto scope = a.setInScope(v);
                        ma = v;
                        if (!scopes(a, b, ma, mb, r, depth + 1, err))
                            return false;
                    }
                    ma = saved;
                }
                break;
            case 3:
                if (depth < 5) {
                    T v = Gen<T>::get(r), saved = mb;
                    {
                        auto scope = b.setInScope(v);
                        auto moved = std::move(scope); // moving a scope moves the duty to restore
                        mb = v;
                        if (!scopes(a, b, ma, mb, r, depth + 1, err))
                            return false;
                    }
                    mb = saved;
                }
                break;
        }
        vf::jitter(r);
    }
    if (a.load() != ma || b.load() != mb) {
        err = vf::fmt("a thread reads a value that is not its own last store (depth %u)", depth);
        return false;
    }
    return true;
}
template <typename T>
static void locals(vf::Rng& r) {
    ThreadLocal<T> a, b;
    u32 n = 2 + r.below(5);
    std::vector<vf::Str> errs(n);
    a.store(Gen<T>::get(r));
    vf::Team team;
    for (u32 i = 0; i < n; i++) {
        u32 seed = r.u32();
        vf::Str* err = &errs[i];
        team.add([&a, &b, seed, err] {
            vf::Rng q{seed};
            T ma{}, mb{};
            for (u32 k = 0; k < 12 && err->empty(); k++)
                scopes(a, b, ma, mb, q, 0, *err);
        });
    }
    VF_CHECK(team.join() == 0, "thread-run", "stuck");
    for (auto& e : errs)
        VF_CHECK(e.empty(), "thread-local", "%s", e.c_str());
    vf::count("thread-local scripts", n);
    vf::evals(n * 12);
    vf::distinct(vf::mix(r.u32()));
}
VF_WORKLOAD(threadLocal, 250, 4000) {
    switch (idx % 7) {
        case 0:
            return locals<s32>(r);
        case 1:
            return locals<u64>(r);
        case 2:
            return locals<s8>(r);
        case 3:
            return locals<bool>(r);
        case 4:
            return locals<Color>(r);
        case 5:
            return locals<int*>(r);
        default:
            return locals<const char*>(r);
    }
}
// Keys are a limited resource: destroying a variable gives its key back, and a new one starts out empty.
VF_WORKLOAD(threadLocalKeys, 4, 40) {
    for (u32 i = 0; i < 3000; i++) {
        ThreadLocal<u64> v;
        VF_CHECK(v.load() == 0, "thread-local", "a new variable starts out as %llu", (unsigned long long) v.load());
        v.store(i + 1);
        VF_CHECK(v.load() == i + 1, "thread-local", "variable %u", i);
    }
    vf::evals(3000);
    vf::distinct(1);
}

// The first lock is also the initialisation, whoever gets there first.
static Mutex_LazyInit lazyMutex; // zero-initialised
VF_WORKLOAD_SERIAL(lazyInit, 800, 12000) {
    u32 n = 2 + r.below(7), reps = 1 + r.below(12);
    std::atomic<u32> ready{0};
    std::atomic<u32> inside{0};
    std::atomic<bool> overlap{false};
    u32 shared = 0; // plain
    vf::Team team;
    for (u32 i = 0; i < n; i++) {
        u32 seed = r.u32();
        team.add([&, seed] {
            vf::Rng q{seed};
            ready++;
            while (ready.load() < n) {
            }
            for (u32 k = 0; k < reps; k++) {
                lazyMutex.lock();
                if (inside.fetch_add(1) != 0)
                    overlap = true;
                u32 v = shared;
                if (q.chance(1, 4))
                    vf::jitter(q);
                shared = v + 1;
                inside.fetch_sub(1);
                lazyMutex.unlock();
            }
        });
    }
    int stuck = team.join(20);
    if (stuck) {
        vf::fail("lazy-stuck", "%d of %u threads never got the lazily initialised mutex", stuck, n);
        _exit(1);
    }
    VF_CHECK(!overlap.load() && shared == n * reps, "lazy-init",
             "%u threads, %u sections each: %u counted, overlap %d", n, reps, shared, (int) overlap.load());
    lazyMutex.~Mutex_LazyInit(); // documented: usable again afterwards
    vf::count("initialisation races", 1);
    vf::evals(n * reps);
    vf::distinct(n * 100 + reps);
}

// One thread at a time: results of each atomic operation.
template <typename T>
static void atomicModel(vf::Rng& r) {
    T m = (T) r.u64();
    Atomic<T> a{m};
    static const MemoryOrder orders[] = {Relaxed, Acquire, Release, AcquireRelease};
    for (u32 s = 0; s < 60; s++) {
        MemoryOrder o = r.pick(orders);
        T v = r.chance(1, 3) ? m : (T) r.u64(), w = (T) r.u64();
        T got = m, want = m;
        u32 op = r.below(11);
        switch (op) {
            case 0:
                a.store(v, o == Acquire || o == AcquireRelease ? Release : o);
                m = v;
                want = got = m;
                break;
            case 1:
                a.storeNonatomic(v);
                m = v;
                got = want = m;
                break;
            case 2:
                got = a.load(o == Release || o == AcquireRelease ? Acquire : o);
                break;
            case 3:
                got = a.compareExchange(v, w, o);
                if (m == v)
                    m = w;
                break;
            case 4: {
                T e = v;
                bool ok = a.compareExchangeStrong(e, w, o);
                VF_CHECK(ok == (m == v) && e == m, "atomic-op", "compareExchangeStrong");
                if (ok)
                    m = w;
                break;
            }
            case 5: {
                T e = v;
                bool ok = a.compareExchangeWeak(e, w, o, Relaxed);
                VF_CHECK((!ok || m == v) && e == (ok ? v : m), "atomic-op", "compareExchangeWeak");
                if (ok)
                    m = w;
                break;
            }
            case 6:
                got = a.exchange(v, o);
                m = v;
                break;
            case 7:
                got = a.fetchAdd(v, o);
                m = (T) ((u64) m + (u64) v);
                break;
            case 8:
                got = a.fetchSub(v, o);
                m = (T) ((u64) m - (u64) v);
                break;
            case 9:
                got = a.fetchAnd(v, o);
                m = (T) (m & v);
                break;
            case 10:
                got = a.fetchOr(v, o);
                m = (T) (m | v);
                break;
        }
        VF_CHECK(got == want, "atomic-op", "operation %u returned another value than the one before it", op);
        Atomic<T> copy{a};
        VF_CHECK(a.loadNonatomic() == m && copy.loadNonatomic() == m, "atomic-op", "wrong value after operation %u", op);
        vf::evals(1);
    }
    vf::distinct(vf::mix((u64) m));
}
VF_WORKLOAD(atomicModel, 1500, 20000) {
    switch (idx % 5) {
        case 0:
            return atomicModel<u8>(r);
        case 1:
            return atomicModel<u16>(r);
        case 2:
            return atomicModel<u32>(r);
        case 3:
            return atomicModel<u64>(r);
        default:
            return atomicModel<s64>(r);
    }
}

// No update is lost: every operation's effect is counted from both sides.
VF_WORKLOAD(atomicConcurrent, 200, 3000) {
    u32 n = 2 + r.below(6), reps = 50 + r.below(400);
    Atomic<s64> sum{0}, cas{0}, weak{0};
    Atomic<u64> bits{0}, mask{~(u64) 0};
    Atomic<u32> slot{0};
    std::atomic<u32> ready{0};
    std::vector<std::vector<u32>> taken(n); // tokens each thread got by exchange
    std::vector<std::vector<s64>> tickets(n);
    std::vector<u64> orSeen(n, 0);
    vf::Team team;
    for (u32 i = 0; i < n; i++) {
        u32 seed = r.u32();
        team.add([&, i, seed] {
            vf::Rng q{seed};
            ready++;
            while (ready.load() < n) {
            }
            for (u32 k = 0; k < reps; k++) {
                tickets[i].push_back(sum.fetchAdd(1, Relaxed));
                for (;;) { // CAS by returned value
                    s64 e = cas.load(Relaxed);
                    if (cas.compareExchange(e, e + 3, AcquireRelease) == e)
                        break;
                }
                s64 e = weak.load(Relaxed);
                while (!weak.compareExchangeWeak(e, e - 2, AcquireRelease, Relaxed)) {
                }
                u32 got = slot.exchange(i * 100000 + k + 1, AcquireRelease);
                taken[i].push_back(got);
                u32 b = (i * 8 + k % 8) & 63;
                bits.fetchOr((u64) 1 << b, Relaxed);
                mask.fetchAnd(~((u64) 1 << b), Relaxed);
                if (q.chance(1, 16))
                    vf::jitter(q);
            }
        });
    }
    VF_CHECK(team.join() == 0, "atomic-stuck", "stuck");
    VF_CHECK(sum.loadNonatomic() == (s64) n * reps, "atomic-lost", "fetchAdd: %lld of %u", (long long) sum.loadNonatomic(),
             n * reps);
    VF_CHECK(cas.loadNonatomic() == (s64) n * reps * 3, "atomic-lost", "compareExchange: %lld", (long long) cas.loadNonatomic());
    VF_CHECK(weak.loadNonatomic() == -(s64) n * reps * 2, "atomic-lost", "compareExchangeWeak: %lld",
             (long long) weak.loadNonatomic());
    std::set<s64> t;
    for (auto& v : tickets) {
        for (u32 k = 1; k < v.size(); k++)
            VF_CHECK(v[k] > v[k - 1], "atomic-order", "a thread's fetchAdd results go backwards");
        t.insert(v.begin(), v.end());
    }
    VF_CHECK(t.size() == (size_t) n * reps && *t.begin() == 0 && *t.rbegin() == (s64) n * reps - 1, "atomic-lost",
             "fetchAdd results are not distinct");
    std::multiset<u32> tok;
    for (auto& v : taken)
        tok.insert(v.begin(), v.end());
    tok.insert(slot.loadNonatomic());
    std::set<u32> want{0};
    for (u32 i = 0; i < n; i++)
        for (u32 k = 0; k < reps; k++)
            want.insert(i * 100000 + k + 1);
    VF_CHECK(tok == std::multiset<u32>(want.begin(), want.end()), "atomic-lost", "exchange lost or repeated a token");
    u64 wb = 0;
    for (u32 i = 0; i < n; i++)
        for (u32 k = 0; k < std::min(8u, reps); k++)
            wb |= (u64) 1 << ((i * 8 + k) & 63);
    VF_CHECK(bits.loadNonatomic() == wb && mask.loadNonatomic() == ~wb, "atomic-lost", "fetchOr / fetchAnd");
    u32 switches = 0;
    for (auto& v : tickets)
        for (u32 k = 1; k < v.size(); k++)
            switches += v[k] != v[k - 1] + 1;
    vf::count("interleavings inside a run of tickets", switches);
    vf::evals(n * reps * 6);
    vf::distinct(vf::mix(switches + n * 100000));
}

// Plain data handed over through an atomic flag: the race detector knows whether the operation ordered it.
VF_WORKLOAD(handOver, 200, 3000) {
    u32 mode = (u32)(idx % 6), rounds = 20 + r.below(60);
    struct Cell {
        u32 payload[4] = {0, 0, 0, 0};
        Atomic<u32> flag{0};
        Atomic<u32> ack{0};
    };
    std::unique_ptr<Cell> cell(new Cell);
    Cell* c = cell.get();
    std::atomic<u32> bad{0};
    std::atomic<bool> stop{false};
    u32 s1 = r.u32(), s2 = r.u32();
    vf::Team team;
    team.add([=, &stop] {
        vf::Rng q{s1};
        for (u32 k = 1; k <= rounds && !stop.load(); k++) {
            for (u32& p : c->payload)
                p = k;
            vf::jitter(q);
            switch (mode) {
                case 0:
                    c->flag.store(k, Release);
                    break;
                case 1:
                    c->flag.exchange(k, AcquireRelease);
                    break;
                case 2:
                    c->flag.compareExchange(k - 1, k, AcquireRelease);
                    break;
                case 3:
                    c->flag.fetchAdd(1, Release);
                    break;
                case 4: {
                    u32 e = k - 1;
                    c->flag.compareExchangeStrong(e, k, AcquireRelease);
                    break;
                }
                case 5: {
                    u32 e = k - 1;
                    while (!c->flag.compareExchangeWeak(e, k, Release, Relaxed))
                        e = k - 1;
                    break;
                }
            }
            while (c->ack.load(Acquire) != k && !stop.load())
                sched_yield();
        }
    });
    team.add([=, &bad, &stop] {
        vf::Rng q{s2};
        for (u32 k = 1; k <= rounds && !stop.load(); k++) {
            while (!stop.load()) {
                u32 f;
                switch (mode) {
                    case 1:
                        f = c->flag.load(Acquire);
                        break;
                    case 2:
                        f = c->flag.compareExchange(0xffffffff, 0, Acquire);
                        break;
                    case 3:
                        f = c->flag.fetchOr(0, Acquire);
                        break;
                    case 4:
                        f = c->flag.fetchAdd(0, AcquireRelease);
                        break;
                    case 5:
                        f = c->flag.fetchSub(0, Acquire);
                        break;
                    default:
                        f = c->flag.load(Acquire);
                        break;
                }
                if (f == k)
                    break;
                sched_yield();
            }
            for (u32 p : c->payload)
                if (p != k && !stop.load())
                    bad++;
            vf::jitter(q);
            c->ack.store(k, Release);
        }
    });
    int stuck = team.join(20);
    stop = true;
    if (stuck) {
        vf::nap(200000);
        cell.release();
        vf::fail("atomic-stuck", "hand-over mode %u never finished", mode);
        return;
    }
    VF_CHECK(bad.load() == 0, "atomic-publish", "stale payload seen %u times in mode %u", bad.load(), mode);
    vf::count("hand-overs", rounds);
    vf::evals(rounds);
    vf::distinct(mode * 100 + rounds);
}

// An object shared by reference counts.
struct Shared : RefCounted<Shared> {
    std::atomic<u32>* destroyed;
    u32 magic = 0xfeedbeef;
    std::vector<u32> data;
    u32 slots[8] = {0, 0, 0, 0, 0, 0, 0, 0}; // plain, one per thread
    Shared(std::atomic<u32>* d) : destroyed{d}, data(16, 7) {
    }
    void onRefCountZero() {
        u32 sum = 0;
        for (u32 s : slots)
            sum += s; // (every thread's last use must be visible here)
        magic = 0xdead0000 + (sum & 0xff);
        (*destroyed)++;
        delete this;
    }
};
VF_WORKLOAD(refCount, 500, 8000) {
    u32 n = 2 + r.below(6), reps = 10 + r.below(80);
    std::atomic<u32> destroyed{0}, bad{0};
    std::atomic<u32> ready{0};
    bool handOff = r.chance(1, 2); // the creating thread lets go early, or last
    {
        Reference<Shared> first{new Shared{&destroyed}};
        std::vector<Reference<Shared>> roots(n);
        for (u32 i = 0; i < n; i++)
            roots[i] = first;
        VF_CHECK(first->getRefCount() == (s32) n + 1, "ref-count", "%d references to an object that has %u",
                 first->getRefCount(), n + 1);
        vf::Team team;
        for (u32 i = 0; i < n; i++) {
            u32 seed = r.u32();
            Reference<Shared>* root = &roots[i];
            team.add([&, i, seed, root] {
                vf::Rng q{seed};
                ready++;
                while (ready.load() < n) {
                }
                Reference<Shared> mine = std::move(*root);
                if (!root->isEmpty())
                    bad++;
                Reference<Shared> local[4];
                for (u32 k = 0; k < reps; k++) {
                    Reference<Shared>&x = local[q.below(4)], &y = local[q.below(4)];
                    switch (q.below(8)) {
                        case 0:
                            x = mine;
                            break;
                        case 1:
                            x = y;
                            break;
                        case 2:
                            if (&x != &y)
                                x = std::move(y);
                            break;
                        case 3:
                            x.clear();
                            break;
                        case 4:
                            x = mine.get();
                            break;
                        case 5: {
                            Reference<Shared> t{x};
                            Reference<Shared> u{std::move(t)};
                            if (u && u->data.size() != 16)
                                bad++;
                            break;
                        }
                        case 6: {
                            Shared* raw = x.release();
                            if (raw)
                                raw->decRef();
                            break;
                        }
                        case 7:
                            mine->incRef();
                            mine->decRef();
                            break;
                    }
                    if (mine->magic != 0xfeedbeef || destroyed.load() != 0)
                        bad++;
                    mine->slots[i]++;
                    if (q.chance(1, 16))
                        vf::jitter(q);
                }
            });
        }
        if (handOff)
            first.clear();
        VF_CHECK(team.join() == 0, "thread-run", "stuck");
        VF_CHECK(bad.load() == 0, "ref-early", "an object was destroyed while references to it were left (%u)", bad.load());
        if (!handOff) {
            VF_CHECK(destroyed.load() == 0 && first->getRefCount() == 1, "ref-count",
                     "the last reference sees destroyed %u, count %d", destroyed.load(),
                     destroyed.load() ? -1 : first->getRefCount());
        }
    }
    VF_CHECK(destroyed.load() == 1, "ref-once", "a shared object was destroyed %u times", destroyed.load());
    vf::count("shared objects", 1);
    vf::evals(n * reps);
    vf::distinct(vf::mix(n * 1000 + reps * 2 + handOff));
}

// Sections that don't overlap never trip the built-in race detector.
VF_WORKLOAD(raceDetector, 40, 400) {
    struct Guarded {
        PLY_DEFINE_RACE_DETECTOR(det)
        u32 value = 0;
    } g;
    Mutex m;
    u32 n = 2 + r.below(6);
    vf::Team team;
    for (u32 i = 0; i < n; i++)
        team.add([&] {
            for (u32 k = 0; k < 50; k++) {
                LockGuard<Mutex> lock{m};
                PLY_RACE_DETECT_GUARD(g.det);
                g.value++;
            }
        });
    VF_CHECK(team.join() == 0, "thread-run", "stuck");
    VF_CHECK(g.value == n * 50, "lock", "lost");
    vf::evals(n * 50);
    vf::distinct(n);
}
VF_MAIN()
