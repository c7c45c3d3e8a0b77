// C18: locks, condition variables, semaphores and events, in lockstep against a model and under stress with monitors
// inside the critical sections. Also built with the thread sanitizer, which checks that what one holder writes is
// ordered before the next.
#include "threadvf.h"
#include <ply-runtime/Base.h>
#include <ply-runtime/thread/Affinity.h>
#include <ply-runtime/thread/ConditionVariable.h>
#include <ply-runtime/thread/ManualResetEvent.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/thread/RWLock.h>
#include <ply-runtime/thread/Semaphore.h>
#include <ply-runtime/thread/impl/ConditionVariable_CPP11.h>
#include <ply-runtime/thread/impl/Mutex_CPP11.h>
#include <ply-runtime/thread/impl/Mutex_LazyInit.h>
#include <ply-runtime/thread/impl/Mutex_SpinLock.h>
#include <ply-runtime/thread/impl/RWLock_CPP14.h>
#include <ply-runtime/thread/Thread.h>
#include <atomic>
#include <signal.h>
using namespace ply;
using vf::Str;
using vf::Team;

static const auto relaxed = std::memory_order_relaxed; // the monitors must not order anything themselves

// Runs closures on a thread of its own, one at a time.
struct Puppet {
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    std::function<void()> job;
    bool quit = false;
    uint64_t started = 0, done = 0;
    pthread_t t;
    static void* entry(void* p) {
        Puppet* self = (Puppet*) p;
        pthread_mutex_lock(&self->m);
        for (;;) {
            while (self->started == self->done && !self->quit)
                pthread_cond_wait(&self->c, &self->m);
            if (self->started == self->done)
                break;
            std::function<void()> f = self->job;
            pthread_mutex_unlock(&self->m);
            f();
            f = nullptr;
            pthread_mutex_lock(&self->m);
            self->done++;
            pthread_cond_broadcast(&self->c);
        }
        pthread_mutex_unlock(&self->m);
        return nullptr;
    }
    Puppet() {
        pthread_create(&t, nullptr, entry, this);
    }
    void start(std::function<void()> f) {
        pthread_mutex_lock(&m);
        job = std::move(f);
        started++;
        pthread_cond_broadcast(&c);
        pthread_mutex_unlock(&m);
    }
    bool finished(uint32_t ms) { // false: still busy after that time
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_sec += ms / 1000;
        ts.tv_nsec += (ms % 1000) * 1000000;
        if (ts.tv_nsec >= 1000000000)
            ts.tv_sec++, ts.tv_nsec -= 1000000000;
        pthread_mutex_lock(&m);
        int rc = 0;
        while (done != started && rc == 0)
            rc = pthread_cond_timedwait(&c, &m, &ts);
        bool ok = done == started;
        pthread_mutex_unlock(&m);
        return ok;
    }
    bool run(std::function<void()> f) {
        start(std::move(f));
        return finished(30000);
    }
    void end() {
        pthread_mutex_lock(&m);
        quit = true;
        pthread_cond_broadcast(&c);
        pthread_mutex_unlock(&m);
        pthread_join(t, nullptr);
    }
};

//-------------------------------- Mutexes
template <typename M> struct Traits {
    static const bool recursive = true, tries = true;
    static void init(M*) {
    }
};
template <> struct Traits<Mutex_SpinLock> {
    static const bool recursive = false, tries = false;
    static void init(Mutex_SpinLock* m) {
        m->initialize();
    }
};
template <> struct Traits<Mutex_LazyInit> {
    static const bool recursive = true, tries = false;
    static void init(Mutex_LazyInit* m) {
        m->zeroInit();
    }
};
template <typename M> bool tryIt(M& m, std::true_type) {
    return m.tryLock();
}
template <typename M> bool tryIt(M&, std::false_type) {
    return false;
}

template <typename M> struct Guarded {
    alignas(16) char mem[sizeof(M)];
    std::atomic<int> inside{0}, overlaps{0}, held{0};
    uint64_t total = 0, check = 0; // plain data: the race detector's bait
    std::vector<int> log;
    M& mutex() {
        return *(M*) mem;
    }
    Guarded() {
        memset(mem, 0, sizeof mem);
        Traits<M>::init(new (mem) M);
    }
    ~Guarded() {
        mutex().~M();
    }
};
template <typename M> void exclusion(vf::Rng& r, const char* name) {
    auto* g = new Guarded<M>;
    uint32_t threads = 2 + r.below(7), iters = (VF_TSAN ? 150 : 400) + r.below(300);
    Team team;
    std::atomic<uint64_t>* expected = new std::atomic<uint64_t>(0);
    for (uint32_t k = 0; k < threads; k++) {
        uint64_t seed = r.u64();
        team.add([=] {
            vf::Rng q(seed);
            uint64_t mine = 0;
            for (uint32_t i = 0; i < iters; i++) {
                typedef Traits<M> T;
                uint32_t depth = T::recursive && q.chance(1, 4) ? 1 + q.below(3) : 0;
                if (T::tries && q.chance(1, 4)) {
                    if (!tryIt(g->mutex(), std::integral_constant<bool, T::tries>()))
                        continue;
                } else
                    g->mutex().lock();
                if (g->inside.fetch_add(1, relaxed) != 0)
                    g->overlaps.fetch_add(1, relaxed);
                for (uint32_t d = 0; d < depth; d++)
                    g->mutex().lock();
                uint64_t t = g->total;
                if (t != g->check)
                    g->overlaps.fetch_add(1, relaxed);
                for (uint32_t d = 0; d < depth; d++)
                    g->mutex().unlock(); // still held
                vf::jitter(q);
                g->total = t + 1;
                g->check = t + 1;
                mine++;
                g->inside.fetch_sub(1, relaxed);
                g->mutex().unlock();
                if (q.chance(1, 3))
                    vf::jitter(q);
            }
            expected->fetch_add(mine, relaxed);
        });
    }
    int stuck = team.join();
    VF_CHECK(stuck == 0, "mutex-stuck", "%s: %d of %u threads never finish", name, stuck, threads);
    VF_EXPECT(g->overlaps.load() == 0, "mutex-exclusion", "%s: %d overlaps of %u threads", name, g->overlaps.load(), threads);
    VF_EXPECT(g->total == expected->load() && g->check == g->total, "mutex-lost", "%s: %llu updates of %llu", name, (unsigned long long) g->total,
              (unsigned long long) expected->load());
    vf::count("critical sections", g->total);
    vf::distinct(vf::hashStr(vf::fmt("%s %u %u %llu", name, threads, iters, (unsigned long long) g->total)));
    delete g;
    delete expected;
}
VF_WORKLOAD_SERIAL(mutex_stress, 40, 1200) {
    switch (idx % 4) {
        case 0:
            return exclusion<Mutex>(r, "Mutex");
        case 1:
            return exclusion<Mutex_CPP11>(r, "Mutex_CPP11");
        case 2:
            return exclusion<Mutex_SpinLock>(r, "Mutex_SpinLock");
        default:
            return exclusion<Mutex_LazyInit>(r, "Mutex_LazyInit");
    }
}

// A few threads follow one script; what each call returns, and whether it blocks, is known from a model.
template <typename M> void script(vf::Rng& r, const char* name, std::true_type) {
    auto* g = new Guarded<M>;
    const int N = 3;
    auto* p = new Puppet[N];
    int owner = -1, depth = 0, waiting = -1;
    for (int step = 0; step < 40 && !vf::failed(); step++) {
        int k = (int) r.below(N);
        if (k == waiting)
            continue;
        uint32_t op = r.below(4);
        if (op == 0 && (owner == -1 || owner == k)) {
            VF_CHECK(p[k].run([g] { g->mutex().lock(); }), "script-lock", "%s: locking a free or own mutex blocks", name);
            owner = k;
            depth++;
        } else if (op == 0 && waiting == -1) { // must block until released
            waiting = k;
            p[k].start([g] { g->mutex().lock(); });
            VF_CHECK(!p[k].finished(r.below(3)), "script-block", "%s: a mutex owned by another thread is locked", name);
            vf::count("blocked lockers");
        } else if (op <= 2 && op != 0) {
            bool* got = new bool(false);
            VF_CHECK(p[k].run([g, got] { *got = g->mutex().tryLock(); }), "script-try", "%s: tryLock blocks", name);
            bool want = owner == -1 || owner == k;
            VF_CHECK(*got == want, "script-try", "%s: tryLock of a mutex %s returns %d", name, owner == -1 ? "nobody owns" : owner == k ? "the thread owns" : "another thread owns", *got);
            delete got;
            if (want) {
                owner = k;
                depth++;
            }
            vf::count("tryLocks");
        } else if (owner == k) {
            VF_CHECK(p[k].run([g] { g->mutex().unlock(); }), "script-unlock", "%s: unlock blocks", name);
            if (--depth == 0) {
                owner = -1;
                if (waiting >= 0) {
                    VF_CHECK(p[waiting].finished(30000), "script-wake", "%s: a waiting thread does not get the mutex", name);
                    owner = waiting;
                    depth = 1;
                    waiting = -1;
                }
            } else if (waiting >= 0)
                VF_CHECK(!p[waiting].finished(1), "script-partial", "%s: a mutex locked twice is free after one unlock", name);
        }
    }
    while (owner >= 0) {
        p[owner].run([g] { g->mutex().unlock(); });
        if (--depth == 0) {
            owner = waiting;
            waiting = -1;
            depth = 1;
            if (owner >= 0)
                VF_CHECK(p[owner].finished(30000), "script-wake", "%s: a waiting thread does not get the mutex", name);
        }
    }
    for (int k = 0; k < N; k++)
        p[k].end();
    delete[] p;
    delete g;
    vf::distinct(r.u64());
}
VF_WORKLOAD_SERIAL(mutex_script, 80, 2000) {
    if (idx % 2)
        script<Mutex>(r, "Mutex", std::true_type());
    else
        script<Mutex_CPP11>(r, "Mutex_CPP11", std::true_type());
}
// A lazily initialised mutex whose first lock is raced for, again and again.
VF_WORKLOAD_SERIAL(lazy_mutex, 60, 2000) {
    for (int round = 0; round < 20; round++) {
        auto* g = new Guarded<Mutex_LazyInit>;
        auto* go = new std::atomic<int>(0);
        uint32_t n = 2 + r.below(5);
        Team team;
        for (uint32_t k = 0; k < n; k++)
            team.add([=] {
                go->fetch_add(1, relaxed);
                while (go->load(relaxed) < (int) n)
                    sched_yield();
                for (int i = 0; i < 5; i++) {
                    g->mutex().lock();
                    if (g->inside.fetch_add(1, relaxed) != 0)
                        g->overlaps.fetch_add(1, relaxed);
                    g->total++;
                    g->inside.fetch_sub(1, relaxed);
                    g->mutex().unlock();
                }
            });
        int stuck = team.join();
        VF_CHECK(stuck == 0, "lazy-stuck", "%d of %u threads never get a new lazily initialised mutex", stuck, n);
        VF_CHECK(g->overlaps.load() == 0 && g->total == 5 * n, "lazy-exclusion", "%u threads: %llu updates, %d overlaps", n, (unsigned long long) g->total, g->overlaps.load());
        vf::count("raced first locks");
        delete g;
        delete go;
    }
    vf::distinct(r.u64());
}

//-------------------------------- Read-write locks
template <typename L> struct RWState {
    L lock;
    std::atomic<int> readers{0}, writers{0}, bad{0}, together{0};
    uint64_t data[4] = {};
};
template <typename L> void rwStress(vf::Rng& r, const char* name) {
    auto* g = new RWState<L>;
    uint32_t threads = 2 + r.below(7), iters = (VF_TSAN ? 120 : 300) + r.below(200), writeOdds = 2 + r.below(8);
    auto* writes = new std::atomic<uint64_t>(0);
    auto* reads = new std::atomic<uint64_t>(0);
    Team team;
    for (uint32_t k = 0; k < threads; k++) {
        uint64_t seed = r.u64();
        team.add([=] {
            vf::Rng q(seed);
            for (uint32_t i = 0; i < iters; i++) {
                if (q.chance(1, writeOdds)) {
                    bool guard = q.chance(1, 2);
                    auto body = [&] {
                        if (g->writers.fetch_add(1, relaxed) != 0 || g->readers.load(relaxed) != 0)
                            g->bad.fetch_add(1, relaxed);
                        for (uint64_t& d : g->data) {
                            d++;
                            vf::jitter(q);
                        }
                        if (g->readers.load(relaxed) != 0)
                            g->bad.fetch_add(1, relaxed);
                        g->writers.fetch_sub(1, relaxed);
                    };
                    if (guard) {
                        ExclusiveLockGuard<L> lg(g->lock);
                        body();
                    } else {
                        g->lock.lockExclusive();
                        body();
                        g->lock.unlockExclusive();
                    }
                    writes->fetch_add(1, relaxed);
                } else {
                    auto body = [&] {
                        if (g->readers.fetch_add(1, relaxed) > 0)
                            g->together.fetch_add(1, relaxed);
                        if (g->writers.load(relaxed) != 0)
                            g->bad.fetch_add(1, relaxed);
                        uint64_t a = g->data[0];
                        vf::jitter(q);
                        for (uint64_t d : g->data)
                            if (d != a)
                                g->bad.fetch_add(1, relaxed);
                        g->readers.fetch_sub(1, relaxed);
                    };
                    if (q.chance(1, 2)) {
                        SharedLockGuard<L> lg(g->lock);
                        body();
                    } else {
                        g->lock.lockShared();
                        body();
                        g->lock.unlockShared();
                    }
                    reads->fetch_add(1, relaxed);
                }
            }
        });
    }
    int stuck = team.join(60);
    VF_CHECK(stuck == 0, "rwlock-stuck", "%s: %d of %u threads never finish", name, stuck, threads);
    VF_EXPECT(g->bad.load() == 0, "rwlock-exclusion", "%s: %d conflicts of %u threads", name, g->bad.load(), threads);
    for (uint64_t d : g->data)
        VF_EXPECT(d == writes->load(), "rwlock-lost", "%s: %llu of %llu writes", name, (unsigned long long) d, (unsigned long long) writes->load());
    vf::count("shared sections", reads->load());
    vf::count("exclusive sections", writes->load());
    vf::count("shared sections that overlap", g->together.load());
    vf::distinct(vf::hashStr(vf::fmt("%s %u %u %u %llu", name, threads, iters, writeOdds, (unsigned long long) writes->load())));
    delete g;
    delete writes;
    delete reads;
}
template <typename L> void rwScript(vf::Rng& r, const char* name) {
    auto* lock = new L;
    const int N = 4;
    auto* p = new Puppet[N];
    int state[N] = {}; // 0 idle, 1 shared, 2 exclusive
    for (int step = 0; step < 30 && !vf::failed(); step++) {
        int k = (int) r.below(N), sh = 0, ex = 0;
        for (int s : state) {
            sh += s == 1;
            ex += s == 2;
        }
        if (state[k] == 0) {
            bool write = r.chance(1, 3), free = write ? sh + ex == 0 : ex == 0;
            std::function<void()> f = write ? std::function<void()>([lock] { lock->lockExclusive(); }) : [lock] { lock->lockShared(); };
            if (free) {
                VF_CHECK(p[k].run(f), "rwlock-free", "%s: %s locking blocks with %d readers and no writer", name, write ? "exclusive" : "shared", sh);
                state[k] = write ? 2 : 1;
                vf::count("shared locks held together", !write && sh);
                continue;
            }
            p[k].start(f);
            VF_CHECK(!p[k].finished(r.below(3)), "rwlock-block", "%s: %s locking succeeds with %d readers and %d writers", name, write ? "exclusive" : "shared", sh, ex);
            for (int j = 0; j < N; j++) // make way for it
                if (j != k && state[j]) {
                    int s = state[j];
                    VF_CHECK(p[j].run([lock, s] { s == 2 ? lock->unlockExclusive() : lock->unlockShared(); }), "rwlock-unlock", "%s: unlock blocks", name);
                    state[j] = 0;
                    if (--(s == 2 ? ex : sh) + (s == 2 ? sh : ex) > 0)
                        VF_CHECK(!p[k].finished(1), "rwlock-early", "%s: %s locking succeeds before every other lock is released", name, write ? "exclusive" : "shared");
                }
            VF_CHECK(p[k].finished(30000), "rwlock-wake", "%s: a waiting thread does not get the lock", name);
            state[k] = write ? 2 : 1;
            vf::count("blocked lockers");
        } else {
            int s = state[k];
            VF_CHECK(p[k].run([lock, s] { s == 2 ? lock->unlockExclusive() : lock->unlockShared(); }), "rwlock-unlock", "%s: unlock blocks", name);
            state[k] = 0;
        }
    }
    for (int k = 0; k < N; k++) {
        int s = state[k];
        if (s)
            p[k].run([lock, s] { s == 2 ? lock->unlockExclusive() : lock->unlockShared(); });
        p[k].end();
    }
    delete[] p;
    delete lock;
    vf::distinct(r.u64());
}
VF_WORKLOAD_SERIAL(rwlock, 60, 1500) {
    switch (idx % 4) {
        case 0:
            return rwStress<RWLock>(r, "RWLock");
        case 1:
            return rwStress<RWLock_CPP14>(r, "RWLock_CPP14");
        case 2:
            return rwScript<RWLock>(r, "RWLock");
        default:
            return rwScript<RWLock_CPP14>(r, "RWLock_CPP14");
    }
}

//-------------------------------- Condition variables
template <typename M, typename C> struct Queue { // bounded
    M mutex;
    C notEmpty, notFull;
    std::vector<uint64_t> items;
    uint64_t got = 0, pushed = 0, target = 0;
    size_t limit = 1;
    std::vector<uint64_t> nextOf; // per producer
    std::atomic<int> inside{0}, bad{0};
    std::atomic<uint64_t> waits{0};
};
template <typename M, typename C> void condQueue(vf::Rng& r, const char* name) {
    auto* g = new Queue<M, C>;
    uint32_t producers = 1 + r.below(4), consumers = 1 + r.below(4), each = (VF_TSAN ? 80 : 200) + r.below(200);
    g->limit = 1 + r.below(4);
    g->target = (uint64_t) producers * each;
    g->nextOf.resize(producers);
    bool timed = r.chance(1, 3), all = r.chance(1, 4);
    Team team;
    auto enter = [g] {
        if (g->inside.fetch_add(1, relaxed) != 0)
            g->bad.fetch_add(1, relaxed);
    };
    auto leave = [g] { g->inside.fetch_sub(1, relaxed); };
    for (uint32_t k = 0; k < producers; k++) {
        uint64_t seed = r.u64();
        team.add([=] {
            vf::Rng q(seed);
            for (uint32_t i = 0; i < each; i++) {
                LockGuard<M> guard(g->mutex);
                enter();
                while (g->items.size() >= g->limit) {
                    g->waits.fetch_add(1, relaxed);
                    leave();
                    if (timed && q.chance(1, 2))
                        g->notFull.timedWait(guard, 1 + q.below(20));
                    else
                        g->notFull.wait(guard);
                    enter();
                }
                g->items.push_back((uint64_t) k << 32 | i);
                g->pushed++;
                vf::jitter(q);
                leave();
                all ? g->notEmpty.wakeAll() : g->notEmpty.wakeOne();
            }
        });
    }
    for (uint32_t k = 0; k < consumers; k++) {
        uint64_t seed = r.u64();
        team.add([=] {
            vf::Rng q(seed);
            for (;;) {
                LockGuard<M> guard(g->mutex);
                enter();
                while (g->items.empty() && g->got < g->target) {
                    g->waits.fetch_add(1, relaxed);
                    leave();
                    if (timed && q.chance(1, 2))
                        g->notEmpty.timedWait(guard, 1 + q.below(20));
                    else
                        g->notEmpty.wait(guard);
                    enter();
                }
                if (g->items.empty()) {
                    leave();
                    g->notEmpty.wakeAll();
                    break;
                }
                uint64_t x = g->items.front();
                g->items.erase(g->items.begin());
                if (g->nextOf[x >> 32]++ != (x & 0xffffffff))
                    g->bad.fetch_add(1, relaxed);
                g->got++;
                leave();
                all ? g->notFull.wakeAll() : g->notFull.wakeOne();
                if (g->got == g->target)
                    g->notEmpty.wakeAll();
            }
        });
    }
    int stuck = team.join();
    VF_CHECK(stuck == 0, "cond-lost", "%s: %d of %u threads wait forever", name, stuck, producers + consumers);
    VF_EXPECT(g->bad.load() == 0, "cond-exclusion", "%s: %d threads in the critical section at once, or items out of order", name, g->bad.load());
    VF_EXPECT(g->got == g->target, "cond-items", "%s: %llu items of %llu", name, (unsigned long long) g->got, (unsigned long long) g->target);
    vf::count("items through queues", g->got);
    vf::count("condition waits", g->waits.load());
    vf::distinct(vf::hashStr(vf::fmt("%s %u %u %u %llu", name, producers, consumers, each, (unsigned long long) g->waits.load())));
    delete g;
}
template <typename M, typename C> struct Waiters {
    M mutex;
    C cond;
    int waiting = 0, woken = 0, passes = 0;
};
// wakeOne wakes at least one waiter, wakeAll every waiter; a waiter holds the mutex again.
template <typename M, typename C> void condWake(vf::Rng& r, const char* name) {
    auto* g = new Waiters<M, C>;
    int n = 1 + (int) r.below(6);
    auto* p = new Puppet[n];
    for (int k = 0; k < n; k++)
        p[k].start([g] {
            LockGuard<M> guard(g->mutex);
            g->waiting++;
            while (g->passes == 0)
                g->cond.wait(guard);
            g->passes--;
            g->woken++;
        });
    for (int i = 0; i < 300000; i++) {
        {
            LockGuard<M> guard(g->mutex); // waiting released it
            if (g->waiting == n)
                break;
        }
        vf::nap(100);
    }
    int left = n;
    while (left > 0 && !vf::failed()) {
        int before;
        bool all = r.chance(1, 3);
        bool inside = r.chance(1, 2);
        {
            LockGuard<M> guard(g->mutex);
            VF_CHECK(g->waiting == n, "cond-enter", "%s: a waiting thread keeps the mutex", name);
            before = g->woken;
            g->passes += all ? left : 1;
            if (inside)
                all ? g->cond.wakeAll() : g->cond.wakeOne();
        }
        if (!inside)
            all ? g->cond.wakeAll() : g->cond.wakeOne();
        int want = before + (all ? left : 1), now = 0;
        for (int i = 0; i < 300000 && now < want; i++) {
            {
                LockGuard<M> guard(g->mutex);
                now = g->woken;
            }
            if (now < want)
                vf::nap(100);
        }
        VF_CHECK(now == want, all ? "cond-wakeall" : "cond-wakeone", "%s: %d of %d threads wake up", name, now - before, want - before);
        left -= all ? left : 1;
        vf::count(all ? "wakeAll" : "wakeOne");
    }
    for (int k = 0; k < n; k++) {
        VF_CHECK(p[k].finished(30000), "cond-end", "%s: a thread does not return from its wait", name);
        p[k].end();
    }
    delete[] p;
    delete g;
    vf::distinct(r.u64());
}
template <typename M, typename C> struct Timed {
    M mutex;
    C cond;
    bool flag = false;
    std::atomic<int> inWait{0};
};
template <typename M, typename C> void condTimed(vf::Rng& r, const char* name) {
    auto* g = new Timed<M, C>;
    uint32_t ms = r.pick({0u, 1u, 2u, 5u, 20u, 50u, 120u});
    if (r.chance(1, 12))
        ms = 1000 + r.below(50);
    // nobody signals
    int early = 0;
    uint64_t longest = 0;
    for (int i = 0; i < 3; i++) {
        if (r.chance(1, 2) && ms > 0 && ms < 1000) { // the deadline falls into the next second
            uint64_t in = vf::nowNs(CLOCK_REALTIME) % 1000000000;
            uint64_t want = 1000000000ull - (uint64_t) ms * 500000;
            if (in < want && want - in < 400000000)
                vf::nap((uint32_t)((want - in) / 1000));
        }
        LockGuard<M> guard(g->mutex);
        uint64_t t = vf::nowNs(), w = vf::nowNs(CLOCK_REALTIME);
        g->cond.timedWait(guard, ms);
        // by either clock, in case the wall clock is being adjusted
        uint64_t a = vf::nowNs() - t, b = vf::nowNs(CLOCK_REALTIME) - w;
        early += (a + 1000000) / 1000000 < ms && (b + 1000000) / 1000000 < ms;
        longest = std::max(longest, a);
    }
    VF_CHECK(early < 3, "timed-early", "%s: a wait of %u ms that nobody signals always ends early", name, ms);
    VF_CHECK(longest < (ms + 20000ull) * 1000000, "timed-late", "%s: a wait of %u ms takes %llu ms", name, ms, (unsigned long long) (longest / 1000000));
    vf::count("timed waits that time out", 3);
    // someone signals early
    Puppet* p = new Puppet;
    auto* elapsed = new std::atomic<uint64_t>(0);
    bool all = r.chance(1, 2);
    p->start([=] {
        LockGuard<M> guard(g->mutex);
        g->inWait = 1;
        uint64_t t = vf::nowNs();
        while (!g->flag && vf::nowNs() - t < 60000000000ull)
            g->cond.timedWait(guard, 60000);
        *elapsed = vf::nowNs() - t;
    });
    while (!g->inWait)
        vf::nap(50);
    vf::nap(r.below(2000));
    {
        LockGuard<M> guard(g->mutex); // a timed wait releases it too
        g->flag = true;
        all ? g->cond.wakeAll() : g->cond.wakeOne();
    }
    VF_CHECK(p->finished(40000), "timed-signal", "%s: a timed wait does not end when signalled", name);
    VF_CHECK(elapsed->load() < 40000000000ull, "timed-signal", "%s: a timed wait ends %llu ms after it was signalled", name, (unsigned long long) elapsed->load() / 1000000);
    p->end();
    delete p;
    delete elapsed;
    delete g;
    vf::count("timed waits that are signalled");
    vf::distinct(r.u64());
}
VF_WORKLOAD_SERIAL(condition, 90, 2400) {
    switch (idx % 6) {
        case 0:
            return condQueue<Mutex, ConditionVariable>(r, "ConditionVariable");
        case 1:
            return condQueue<Mutex_CPP11, ConditionVariable_CPP11>(r, "ConditionVariable_CPP11");
        case 2:
            return condWake<Mutex, ConditionVariable>(r, "ConditionVariable");
        case 3:
            return condWake<Mutex_CPP11, ConditionVariable_CPP11>(r, "ConditionVariable_CPP11");
        case 4:
            return condTimed<Mutex, ConditionVariable>(r, "ConditionVariable");
        default:
            return condTimed<Mutex_CPP11, ConditionVariable_CPP11>(r, "ConditionVariable_CPP11");
    }
}

//-------------------------------- Semaphores
static void onSignal(int) {
}
struct SemState {
    Semaphore sem;
    std::atomic<int64_t> signalled{0}, acquired{0};
    std::atomic<int> bad{0};
    std::atomic<bool> stop{false};
    uint64_t slots[4096] = {}; // written before signal, read after wait
    std::atomic<uint32_t> writeAt{0};
};
VF_WORKLOAD_SERIAL(semaphore, 60, 1500) {
    auto* g = new SemState;
    struct sigaction sa = {};
    sa.sa_handler = onSignal; // no SA_RESTART: waits are interrupted
    sigaction(SIGUSR2, &sa, nullptr);
    uint32_t waiters = 1 + r.below(6), signallers = 1 + r.below(3), each = 20 + r.below(150);
    uint64_t total = (uint64_t) waiters * each;
    std::vector<uint64_t> share(signallers, total / signallers);
    share[0] += total % signallers;
    Team team;
    for (uint32_t k = 0; k < waiters; k++)
        team.add([=] {
            for (uint32_t i = 0; i < each; i++) {
                g->sem.wait();
                if (g->acquired.fetch_add(1) + 1 > g->signalled.load())
                    g->bad.fetch_add(1);
            }
        });
    std::vector<pthread_t> targets;
    for (auto& m : team.members)
        targets.push_back(m->t);
    for (uint32_t k = 0; k < signallers; k++) {
        uint64_t seed = r.u64(), n = share[k];
        team.add([=] {
            vf::Rng q(seed);
            for (uint64_t left = n; left > 0;) {
                uint64_t c = q.chance(1, 2) ? 1 : std::min<uint64_t>(left, 1 + q.below(9));
                g->signalled.fetch_add((int64_t) c);
                if (c == 1 && q.chance(1, 2))
                    g->sem.signal();
                else
                    g->sem.signal((ureg) c);
                left -= c;
                if (q.chance(1, 10))
                    g->sem.signal(0); // releases nobody
                vf::jitter(q);
            }
        });
    }
    bool interrupt = r.chance(1, 2);
    // interruptions while threads are surely still waiting: the last signals are held back
    if (interrupt)
        for (int i = 0; i < 30; i++) {
            for (pthread_t t : targets)
                pthread_kill(t, SIGUSR2);
            vf::nap(200);
        }
    int stuck = team.join();
    VF_CHECK(stuck == 0, "semaphore-stuck", "%d of %u threads never finish: %lld of %lld", stuck, waiters + signallers, (long long) g->acquired.load(), (long long) g->signalled.load());
    VF_CHECK(g->bad.load() == 0, "semaphore-extra", "%d waits return without a signal", g->bad.load());
    vf::count("semaphore waits", total);
    // nothing is left over
    Puppet* p = new Puppet;
    p->start([g] { g->sem.wait(); });
    for (int i = 0; i < 5; i++) {
        VF_CHECK(!p->finished(r.below(3)), "semaphore-left", "a wait returns after every signal was used up");
        pthread_kill(p->t, SIGUSR2);
    }
    uint32_t extra = 1 + r.below(5);
    g->sem.signal(extra);
    VF_CHECK(p->finished(30000), "semaphore-wake", "a signal does not wake the waiting thread");
    for (uint32_t i = 1; i < extra; i++)
        VF_CHECK(p->run([g] { g->sem.wait(); }), "semaphore-count", "signal(%u) lets only %u waits through", extra, i);
    p->start([g] { g->sem.wait(); });
    VF_CHECK(!p->finished(2), "semaphore-count", "signal(%u) lets %u waits through", extra, extra + 1);
    g->sem.signal();
    p->finished(30000);
    p->end();
    delete p;
    delete g;
    vf::distinct(vf::hashStr(vf::fmt("%u %u %u", waiters, signallers, each)));
}
// A semaphore as a lock: what was written before signal is seen after wait.
VF_WORKLOAD_SERIAL(semaphore_order, 30, 800) {
    auto* g = new SemState;
    auto* total = new uint64_t(0);
    uint32_t threads = 2 + r.below(6), iters = 200;
    g->sem.signal();
    Team team;
    for (uint32_t k = 0; k < threads; k++)
        team.add([=] {
            for (uint32_t i = 0; i < iters; i++) {
                g->sem.wait();
                if (g->acquired.fetch_add(1, relaxed) != 0)
                    g->bad.fetch_add(1, relaxed);
                ++*total;
                g->acquired.fetch_sub(1, relaxed);
                g->sem.signal();
            }
        });
    int stuck = team.join();
    VF_CHECK(stuck == 0, "semaphore-stuck", "%d threads never finish", stuck);
    VF_CHECK(g->bad.load() == 0 && *total == (uint64_t) threads * iters, "semaphore-exclusion", "%d overlaps, %llu of %u updates", g->bad.load(), (unsigned long long) *total,
             threads * iters);
    vf::count("semaphore waits", *total);
    vf::distinct(r.u64());
    delete g;
    delete total;
}

//-------------------------------- Events
struct EventState {
    ManualResetEvent event;
    std::atomic<int> armed{0}, passed{0}, bad{0};
    uint64_t data = 0;
    EventState(bool s) : event(s) {
    }
};
VF_WORKLOAD_SERIAL(event, 80, 2000) {
    bool initial = r.chance(1, 3);
    auto* g = new EventState(initial);
    bool state = initial;
    const int N = 4;
    auto* p = new Puppet[N];
    bool waiting[N] = {};
    for (int step = 0; step < 40 && !vf::failed(); step++) {
        int k = (int) r.below(N);
        switch (r.below(4)) {
            case 0:
            case 1:
                if (waiting[k])
                    break;
                p[k].start([g] { g->event.wait(); });
                if (state)
                    VF_CHECK(p[k].finished(30000), "event-signalled", "waiting for a signalled event blocks");
                else {
                    VF_CHECK(!p[k].finished(r.below(3)), "event-reset", "waiting for an event that isn't signalled returns");
                    waiting[k] = true;
                }
                break;
            case 2:
                g->event.signal();
                state = true;
                for (int j = 0; j < N; j++)
                    if (waiting[j]) {
                        VF_CHECK(p[j].finished(30000), "event-wake", "a signalled event leaves a waiting thread behind");
                        waiting[j] = false;
                        vf::count("threads released by events");
                    }
                break;
            default: {
                bool any = false;
                for (bool w : waiting)
                    any |= w;
                g->event.reset();
                state = false;
                if (any)
                    VF_CHECK(!p[0].finished(0) || !waiting[0], "event-reset-wakes", "reset releases a thread");
            }
        }
    }
    g->event.signal();
    for (int k = 0; k < N; k++) {
        VF_CHECK(p[k].finished(30000), "event-wake", "a signalled event leaves a waiting thread behind");
        p[k].end();
    }
    delete[] p;
    delete g;
    vf::distinct(r.u64());
}
// A relay: everyone waits for an event that publishes data, round after round.
VF_WORKLOAD_SERIAL(event_rounds, 40, 1000) {
    const int ROUNDS = 60;
    struct Rounds {
        ManualResetEvent ev[ROUNDS];
        std::atomic<int> done{0}, bad{0};
        uint64_t data[ROUNDS] = {};
        std::atomic<int> fired[ROUNDS];
    };
    auto* g = new Rounds;
    for (auto& f : g->fired)
        f = 0;
    uint32_t threads = 1 + r.below(7);
    Team team;
    for (uint32_t k = 0; k < threads; k++) {
        uint64_t seed = r.u64();
        team.add([=] {
            vf::Rng q(seed);
            for (int i = 0; i < ROUNDS; i++) {
                g->ev[i].wait();
                if (g->fired[i].load(relaxed) == 0 || g->data[i] != (uint64_t) i * 77 + 1)
                    g->bad.fetch_add(1, relaxed);
                g->done.fetch_add(1, relaxed);
                vf::jitter(q);
            }
        });
    }
    uint64_t seed = r.u64();
    team.add([=] {
        vf::Rng q(seed);
        for (int i = 0; i < ROUNDS; i++) {
            g->data[i] = (uint64_t) i * 77 + 1;
            vf::jitter(q);
            g->fired[i].store(1, relaxed);
            g->ev[i].signal();
        }
    });
    int stuck = team.join();
    VF_CHECK(stuck == 0, "event-stuck", "%d of %u threads wait forever", stuck, threads + 1);
    VF_CHECK(g->bad.load() == 0, "event-early", "%d waits return before the signal, or without its data", g->bad.load());
    VF_CHECK(g->done.load() == (int) threads * ROUNDS, "event-count", "%d", g->done.load());
    vf::count("event rounds", ROUNDS);
    delete g;
    vf::distinct(r.u64());
}

VF_MAIN()
