// The embedded heap against a map of live blocks; its system calls go through a stand-in that places mappings and
// watches what is given back.
#include "plyvf.h"
#include "threadvf.h"
#include <ply-runtime/memory/Heap.h>
#include <ply-runtime/memory/MemPage.h>
#include <ply-runtime/memory/impl/Heap_CRT.h>
#include <stdarg.h>
#include <sys/mman.h>
#if PLY_USE_DLMALLOC
#include <ply-runtime/memory/impl/Heap_DL.h>
#endif
using namespace ply;

//--------------------------------------------------------------------
// mmap stand-in
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void*, size_t);
extern "C" void* __real_mremap(void*, size_t, size_t, int, ...);
static const size_t ArenaSize = (size_t) 1 << 32;
struct SysWatch {
    bool on = false;
    u32 mode = 0; // 0: the kernel chooses, 1: ascending, adjacent, 2: descending, adjacent, 3: gaps, 4: a mixture
    char* arena = nullptr;
    char *lo = nullptr, *hi = nullptr;
    vf::Rng rng{1};
    u64 total = 0; // bytes mapped and not given back
    u64 maps = 0, unmaps = 0, remaps = 0, adjacent = 0;
    std::map<uptr, size_t>* live = nullptr; // blocks that must stay mapped
    uptr freeing = 0;                       // (except the one being freed or resized)
    vf::Str bad;
};
static SysWatch sw;
static pthread_t watched;
static bool mine() {
    return sw.on && pthread_equal(pthread_self(), watched);
}
static void checkGone(uptr b, size_t n, uptr moved = 0) {
    if (!sw.live)
        return;
    bool save = sw.on;
    sw.on = false;
    auto it = sw.live->upper_bound(b);
    if (it != sw.live->begin())
        --it;
    for (; it != sw.live->end() && it->first < b + n; ++it)
        if (it->first + it->second > b && it->first != sw.freeing && sw.bad.empty())
            sw.bad = vf::fmt("memory %zx+%zx goes back to the system with a live block %zx+%zx in it", b, n, it->first,
                             it->second);
    sw.on = save;
}
static void refill(void* p, size_t n) { // keep the arena's address range ours
    if (sw.arena && (char*) p >= sw.arena && (char*) p < sw.arena + ArenaSize)
        __real_mmap(p, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
}
extern "C" void* __wrap_mmap(void* addr, size_t n, int prot, int flags, int fd, off_t off) {
    if (!mine() || addr || fd != -1)
        return __real_mmap(addr, n, prot, flags, fd, off);
    u32 mode = sw.mode == 4 ? sw.rng.below(4) : sw.mode;
    char* at = nullptr;
    size_t pages = (n + 4095) & ~(size_t) 4095;
    if (mode == 1 && sw.hi + pages < sw.arena + ArenaSize) {
        at = sw.hi;
        sw.hi += pages;
        sw.adjacent++;
    } else if (mode == 2 && sw.lo - pages > sw.arena) {
        sw.lo -= pages;
        at = sw.lo;
        sw.adjacent++;
    } else if (mode == 3 && sw.hi + pages + 65536 < sw.arena + ArenaSize) {
        sw.hi += 4096 * (1 + sw.rng.below(8));
        at = sw.hi;
        sw.hi += pages;
    }
    void* p = __real_mmap(at, n, prot, flags | (at ? MAP_FIXED : 0), fd, off);
    if (p != MAP_FAILED) {
        sw.total += n;
        sw.maps++;
    }
    return p;
}
extern "C" int __wrap_munmap(void* p, size_t n) {
    if (!mine())
        return __real_munmap(p, n);
    checkGone((uptr) p, n);
    int rc = __real_munmap(p, n);
    if (rc == 0) {
        sw.total -= n;
        sw.unmaps++;
        refill(p, n);
    }
    return rc;
}
extern "C" void* __wrap_mremap(void* p, size_t on, size_t nn, int flags, ...) {
    if (!mine())
        return __real_mremap(p, on, nn, flags);
    void* q = __real_mremap(p, on, nn, flags);
    if (q != MAP_FAILED) {
        sw.total += nn - on;
        sw.remaps++;
        if (q != p) {
            refill(p, on);
        } else if (nn < on) {
            checkGone((uptr) p + nn, on - nn);
            refill((char*) p + nn, on - nn);
        }
    }
    return q;
}
static void watchBegin(u32 mode, vf::Rng& r, std::map<uptr, size_t>* live) {
    if (!sw.arena) {
        sw.arena = (char*) __real_mmap(nullptr, ArenaSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (sw.arena == MAP_FAILED)
            sw.arena = nullptr;
    }
    sw.mode = sw.arena ? mode : 0;
    sw.lo = sw.hi = sw.arena + ArenaSize / 2;
    if (sw.arena) // back to unused
        __real_mmap(sw.arena, ArenaSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    sw.rng = vf::Rng{r.u32()};
    sw.total = sw.maps = sw.unmaps = sw.remaps = sw.adjacent = 0;
    sw.live = live;
    sw.freeing = 0;
    sw.bad.clear();
    watched = pthread_self();
}
struct Watching { // the heap's own calls only, not those of the harness
    Watching() {
        sw.on = true;
    }
    ~Watching() {
        sw.on = false;
    }
};

static u32 anySize(vf::Rng& r) {
    switch (r.below(16)) {
        case 0:
            return 0;
        case 1:
        case 2:
        case 3:
        case 4:
            return r.below(40);
        case 5:
        case 6:
        case 7:
            return r.below(260);
        case 8:
        case 9:
            return r.below(4096);
        case 10:
        case 11:
            return r.below(65536);
        case 12:
            return 65536 - 64 + r.below(128);
        case 13:
            return 262144 - 9000 + r.below(18000);
        case 14:
            return r.below(600000);
        default:
            return r.chance(1, 4) ? r.below(4000000) : 8 << r.below(16);
    }
}
static u32 smallSize(vf::Rng& r) {
    return r.chance(1, 10) ? r.below(3000) : r.below(200);
}

struct Block {
    u32 size;
    u32 seed;
    bool aligned;
};
static inline u8 pat(u32 seed, size_t i) {
    return (u8) (seed + i * 131 + (i >> 8) * 17);
}
static void paint(void* p, size_t from, size_t n, u32 seed) {
    u8* b = (u8*) p;
    for (size_t i = from; i < n; i++)
        b[i] = pat(seed, i);
}
static bool intact(const void* p, size_t n, u32 seed) {
    const u8* b = (const u8*) p;
    if (n > 70000) { // both ends and a sample
        for (size_t i = 0; i < 4096; i++)
            if (b[i] != pat(seed, i) || b[n - 1 - i] != pat(seed, n - 1 - i))
                return false;
        for (size_t i = 4096; i < n; i += 251)
            if (b[i] != pat(seed, i))
                return false;
        return true;
    }
    for (size_t i = 0; i < n; i++)
        if (b[i] != pat(seed, i))
            return false;
    return true;
}

template <class H>
struct HeapInfo {
    static size_t usable(H&, void*, size_t asked) {
        return asked;
    }
    static const bool stats = false;
};
#if PLY_USE_DLMALLOC
template <>
struct HeapInfo<Heap_DL> {
    static size_t usable(Heap_DL& h, void* p, size_t) {
        return h.getSize(p);
    }
    static const bool stats = true;
};
template <class H>
static void getStats(H&, u64*) {
}
static void getStats(Heap_DL& h, u64* out) {
    Heap_DL::Stats s = PLY_HEAP_DIRECT(h).getStats();
    out[0] = s.inUseBytes;
    out[1] = s.systemBytes;
    out[2] = s.peakSystemBytes;
}
#else
template <class H>
static void getStats(H&, u64*) {
}
#endif

// The C library's realloc(p, 0) may free the block and return null, so it's left alone there.
static const u32 SmallestResize = PLY_USE_DLMALLOC ? 0 : 1;
template <class H>
struct Driver {
    H& heap;
    std::map<uptr, Block> blocks;
    std::map<uptr, size_t> live; // address -> usable bytes
    u64 asked = 0, peak = 0;
    vf::Str log;
    bool fillAll = false; // also write the bytes beyond what was asked that getSize() grants

    Driver(H& h) : heap{h} {
    }
    bool addBlock(void* p, u32 size, u32 align, u32 seed, u32 kept) {
        VF_CHECKR(p, false, "heap-null", "no memory for %u bytes: %s", size, log.c_str());
        uptr a = (uptr) p;
        VF_CHECKR(a % align == 0, false, "heap-align", "%zx is not aligned to %u: %s", a, align, log.c_str());
        size_t us = HeapInfo<H>::usable(heap, p, size);
        VF_CHECKR(us >= size, false, "heap-size", "a block of %u bytes has room for %zu: %s", size, us, log.c_str());
        size_t span = std::max<size_t>(us, 1);
        auto it = live.lower_bound(a);
        if (it != live.end())
            VF_CHECKR(it->first >= a + span, false, "heap-overlap", "%zx+%zx overlaps the live block %zx+%zx: %s", a, span,
                      it->first, it->second, log.c_str());
        if (it != live.begin()) {
            --it;
            VF_CHECKR(it->first + it->second <= a, false, "heap-overlap", "%zx+%zx overlaps the live block %zx+%zx: %s", a, span,
                      it->first, it->second, log.c_str());
        }
        VF_CHECKR(intact(p, kept, seed), false, "heap-realloc", "realloc did not keep the first %u bytes: %s", kept, log.c_str());
        paint(p, kept, fillAll ? us : size, seed);
        blocks[a] = Block{size, seed, align > 16};
        live[a] = span;
        asked += size;
        peak = std::max(peak, asked);
        return true;
    }
    bool verify(uptr a) {
        Block& b = blocks[a];
        VF_CHECKR(intact((void*) a, b.size, b.seed), false, "heap-contents", "the contents of the live block %zx (%u bytes) changed: %s",
                  a, b.size, log.c_str());
        return true;
    }
    bool verifyAll() {
        for (auto& kv : blocks)
            if (!verify(kv.first))
                return false;
        return stats();
    }
    bool stats() {
        if (!HeapInfo<H>::stats)
            return true;
        u64 s[3];
        getStats(heap, s);
        u64 low = 0, slack = 0;
        for (auto& kv : live) {
            low += kv.second;
            slack += kv.second >= 250000 ? 16384 : 8; // overhead: a word, or the rest of the pages of a direct mapping
        }
        VF_CHECKR(s[0] >= low && s[0] <= low + slack, false, "heap-stats",
                  "%zu live blocks of %llu bytes (overhead up to %llu), inUseBytes %llu: %s", live.size(),
                  (unsigned long long) low, (unsigned long long) slack, (unsigned long long) s[0], log.c_str());
        VF_CHECKR(s[1] <= s[2] && s[1] >= s[0], false, "heap-stats", "in use %llu, system %llu, peak %llu",
                  (unsigned long long) s[0], (unsigned long long) s[1], (unsigned long long) s[2]);
        return true;
    }
    uptr any(vf::Rng& r) {
        auto it = blocks.begin();
        if (r.chance(1, 2)) {
            it = blocks.lower_bound((blocks.begin()->first + (uptr) ((blocks.rbegin()->first - blocks.begin()->first) * r.unit())));
            if (it == blocks.end())
                --it;
        } else
            std::advance(it, r.below((u32) blocks.size()));
        return it->first;
    }
    void forget(uptr a) {
        asked -= blocks[a].size;
        blocks.erase(a);
        live.erase(a);
    }
    bool sysOk() {
        VF_CHECKR(sw.bad.empty(), false, "heap-unmap", "%s: %s", sw.bad.c_str(), log.c_str());
        return true;
    }
    bool alloc(u32 size, u32 seed) {
        log += vf::fmt(" a%u", size);
        void* p;
        {
            Watching w;
            p = PLY_HEAP_DIRECT(heap).alloc(size);
        }
        return sysOk() && addBlock(p, size, 16, seed, 0);
    }
    bool allocAligned(u32 size, u32 align, u32 seed) {
        log += vf::fmt(" A%u/%u", size, align);
        void* p;
        {
            Watching w;
            p = PLY_HEAP_DIRECT(heap).allocAligned(size, align);
        }
        return sysOk() && addBlock(p, size, std::max(align, 16u), seed, 0);
    }
    bool free(uptr a) {
        log += vf::fmt(" f%u", blocks[a].size);
        if (!verify(a))
            return false;
        bool al = blocks[a].aligned;
        {
            sw.freeing = a;
            Watching w;
            if (al)
                PLY_HEAP_DIRECT(heap).freeAligned((void*) a);
            else
                PLY_HEAP_DIRECT(heap).free((void*) a);
        }
        sw.freeing = 0;
        forget(a);
        return sysOk();
    }
    bool realloc(uptr a, u32 size) {
        Block b = blocks[a];
        log += vf::fmt(" r%u>%u", b.size, size);
        if (!verify(a))
            return false;
        void* p;
        {
            sw.freeing = a;
            Watching w;
            p = PLY_HEAP_DIRECT(heap).realloc((void*) a, size);
        }
        sw.freeing = 0;
        forget(a);
        return sysOk() && addBlock(p, size, 16, b.seed, std::min(size, b.size));
    }
    bool freeAll(vf::Rng& r) {
        u32 order = r.below(3);
        while (!blocks.empty()) {
            uptr a = order == 0 ? blocks.begin()->first : order == 1 ? blocks.rbegin()->first : any(r);
            if (!free(a))
                return false;
            if (log.size() > 3000)
                log = "..." + log.substr(log.size() - 1500);
        }
        return true;
    }
    void step(vf::Rng& r, u32 sizes, u32 growth) {
        vf::ctx(log);
        if (log.size() > 3000)
            log = "..." + log.substr(log.size() - 1500);
        u32 sz = sizes == 0 ? smallSize(r) : sizes == 1 ? anySize(r) : (sizes == 2 ? 200000 + r.below(200000) : 24 + 8 * r.below(4));
        bool full = asked > (64u << 20);
        u32 op = r.below(16);
        if (blocks.empty() || (op < growth && !full)) {
            if (r.chance(1, 8))
                allocAligned(sz, 1u << r.below(r.chance(1, 8) ? 17 : 9), r.u32());
            else
                alloc(sz, r.u32());
        } else if (op < 13) {
            free(any(r));
        } else if (op < 15) {
            uptr a = any(r);
            if (blocks[a].aligned)
                free(a);
            else if (!full || sz < 65536) {
                u32 old = blocks[a].size;
                u32 nsz = r.chance(1, 2) ? sz : r.chance(1, 2) ? old / 2 : old + r.below(old / 2 + 64);
                realloc(a, std::max(nsz, SmallestResize));
            }
        } else {
            verify(any(r));
        }
        vf::evals(1);
    }
};

#if PLY_USE_DLMALLOC
// A heap of its own for each case; the storage is reused, as is allowed for memory that was zeroed.
static Heap_DL testHeap;
VF_WORKLOAD_SERIAL(history, 250, 4000) {
    testHeap.zeroInit();
    Driver<Heap_DL> d{testHeap};
    watchBegin((u32)(idx % 5), r, &d.live);
    d.fillAll = r.chance(1, 2);
    u32 steps = 100 + r.size(2500), sizes = r.below(4), phase = 0, growth = 9;
    for (u32 s = 0; s < steps && !vf::failed(); s++) {
        if (phase == 0) {
            phase = 1 + r.below(300);
            growth = 4 + r.below(9); // growing and shrinking phases
            if (r.chance(1, 4))
                sizes = r.below(4);
            if (!d.stats())
                return;
        }
        phase--;
        d.step(r, sizes, growth);
    }
    if (vf::failed())
        return;
    u64 s3[3];
    getStats(testHeap, s3);
    VF_CHECK(s3[1] == sw.total, "heap-stats", "systemBytes %llu, but %llu bytes were mapped and not given back: %s",
             (unsigned long long) s3[1], (unsigned long long) sw.total, d.log.c_str());
    if (!d.verifyAll() || !d.freeAll(r))
        return;
    getStats(testHeap, s3);
    VF_CHECK(s3[0] == 0, "heap-stats", "everything is freed and %llu bytes are in use: %s", (unsigned long long) s3[0], d.log.c_str());
    VF_CHECK(s3[1] == sw.total, "heap-stats", "systemBytes %llu, but %llu bytes were mapped and not given back: %s",
             (unsigned long long) s3[1], (unsigned long long) sw.total, d.log.c_str());
    vf::count("mappings made", sw.maps);
    vf::count("mappings given back", sw.unmaps);
    vf::count("mappings resized", sw.remaps);
    vf::count("mappings placed next to another", sw.adjacent);
    vf::maxOf("most bytes live", d.peak);
    vf::distinct(vf::mix(sw.maps * 1000003 + steps * 31 + d.peak));
    // give the rest back so that cases don't pile up
    sw.live = nullptr;
    if (sw.arena)
        __real_mmap(sw.arena, ArenaSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
}

// The same work over and over needs no more memory than the first few times.
VF_WORKLOAD_SERIAL(reuse, 40, 600) {
    testHeap.zeroInit();
    Driver<Heap_DL> d{testHeap};
    watchBegin(r.below(2), r, &d.live);
    u32 seed = r.u32(), sizes = r.below(3) == 2 ? 3 : r.below(2), steps = 50 + r.below(400);
    u64 footprint = 0, s3[3];
    for (u32 round = 0; round < 24 && !vf::failed(); round++) {
        vf::Rng q{seed};
        for (u32 s = 0; s < steps && !vf::failed(); s++)
            d.step(q, sizes, 9);
        vf::Rng q2{r.u32()};
        if (vf::failed() || !d.freeAll(q2))
            return;
        getStats(testHeap, s3);
        VF_CHECK(s3[0] == 0, "heap-stats", "everything is freed and %llu bytes are in use", (unsigned long long) s3[0]);
        if (round == 5)
            footprint = s3[2];
    }
    VF_CHECK(s3[2] <= footprint + footprint / 2 + (1 << 20), "heap-reuse",
             "doing the same again and again takes ever more memory: peak %llu after 6 rounds, %llu after 24",
             (unsigned long long) footprint, (unsigned long long) s3[2]);
    vf::distinct(vf::mix(seed));
    sw.live = nullptr;
    if (sw.arena)
        __real_mmap(sw.arena, ArenaSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
}

// Small blocks that were freed join up again and can serve a large one.
VF_WORKLOAD_SERIAL(coalesce, 120, 1500) {
    testHeap.zeroInit();
    Driver<Heap_DL> d{testHeap};
    watchBegin(1 + r.below(2), r, &d.live);
    u32 n = 50 + r.below(500);
    u64 bytes = 0;
    for (u32 i = 0; i < n && !vf::failed(); i++) {
        u32 sz = 16 + r.below(300);
        bytes += sz;
        d.alloc(sz, r.u32());
    }
    u64 before[3], after[3];
    getStats(testHeap, before);
    if (vf::failed() || !d.freeAll(r))
        return;
    u32 big = (u32) std::min<u64>(bytes * 9 / 10, 200000);
    d.alloc(big, r.u32());
    getStats(testHeap, after);
    VF_CHECK(after[1] <= before[1], "heap-reuse",
             "%u freed blocks of %llu bytes in all, side by side, can't serve %u bytes: system bytes %llu, then %llu: %s", n,
             (unsigned long long) bytes, big, (unsigned long long) before[1], (unsigned long long) after[1], d.log.c_str());
    d.freeAll(r);
    vf::evals(1);
    vf::distinct(vf::mix(bytes));
    sw.live = nullptr;
    if (sw.arena)
        __real_mmap(sw.arena, ArenaSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
}
typedef Heap_DL TheHeap;
#else
typedef Heap_CRT TheHeap;
static Heap_CRT testHeap;
VF_WORKLOAD_SERIAL(history, 40, 400) {
    Driver<Heap_CRT> d{testHeap};
    sw.live = nullptr;
    watched = 0;
    u32 steps = 100 + r.size(1500), sizes = r.below(4);
    for (u32 s = 0; s < steps && !vf::failed(); s++)
        d.step(r, sizes, 4 + (s / 100 % 3) * 4);
    if (!vf::failed() && d.verifyAll())
        d.freeAll(r);
    vf::distinct(vf::mix(d.peak));
}
#endif

// Several threads on one heap, handing blocks to each other.
static TheHeap sharedHeap;
VF_WORKLOAD_SERIAL(threads, 40, 600) {
    struct Handed {
        void* p;
        u32 size, seed;
    };
    struct State {
        pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
        std::vector<Handed> queue;
        std::atomic<u32> bad{0};
        std::atomic<u32> ready{0};
        std::atomic<u64> transfers{0};
    };
    State st;
    u32 n = 2 + r.below(6), steps = 200 + r.below(1500);
    vf::Team team;
    for (u32 i = 0; i < n; i++) {
        u32 seed = r.u32();
        team.add([&st, n, steps, seed] {
            vf::Rng q{seed};
            st.ready++;
            while (st.ready.load() < n) {
            }
            std::vector<Handed> own;
            for (u32 s = 0; s < steps; s++) {
                u32 op = q.below(16);
                if (op < 7 || own.empty()) {
                    u32 sz = q.chance(1, 60) ? q.below(400000) : q.below(400), sd = q.u32();
                    void* p = q.chance(1, 6) ? PLY_HEAP_DIRECT(sharedHeap).allocAligned(sz, 16u << q.below(4))
                                             : PLY_HEAP_DIRECT(sharedHeap).alloc(sz);
                    paint(p, 0, sz, sd);
                    own.push_back({p, sz, sd});
                } else {
                    u32 k = q.below((u32) own.size());
                    Handed h = own[k];
                    own[k] = own.back();
                    own.pop_back();
                    if (!intact(h.p, h.size, h.seed))
                        st.bad++;
                    if (op < 11) {
                        PLY_HEAP_DIRECT(sharedHeap).free(h.p);
                    } else if (op < 13) {
                        pthread_mutex_lock(&st.m);
                        st.queue.push_back(h);
                        pthread_mutex_unlock(&st.m);
                        st.transfers++;
                    } else if (op < 14) {
                        u32 sz = std::max<u32>(q.below(600), SmallestResize);
                        void* p = PLY_HEAP_DIRECT(sharedHeap).realloc(h.p, sz);
                        if (!intact(p, std::min(sz, h.size), h.seed))
                            st.bad++;
                        paint(p, 0, sz, h.seed);
                        own.push_back({p, sz, h.seed});
                    } else {
                        own.push_back(h);
                        pthread_mutex_lock(&st.m);
                        if (!st.queue.empty()) {
                            own.push_back(st.queue.back());
                            st.queue.pop_back();
                        }
                        pthread_mutex_unlock(&st.m);
                    }
                }
            }
            for (Handed& h : own) {
                if (!intact(h.p, h.size, h.seed))
                    st.bad++;
                PLY_HEAP_DIRECT(sharedHeap).free(h.p);
            }
        });
    }
    VF_CHECK(team.join(60) == 0, "heap-stuck", "threads stuck in the heap");
    for (Handed& h : st.queue) {
        if (!intact(h.p, h.size, h.seed))
            st.bad++;
        PLY_HEAP_DIRECT(sharedHeap).free(h.p);
    }
    VF_CHECK(st.bad.load() == 0, "heap-contents", "%u blocks changed under their owners on %u threads", st.bad.load(), n);
#if PLY_USE_DLMALLOC
    u64 s3[3];
    getStats(sharedHeap, s3);
    VF_CHECK(s3[0] == 0, "heap-stats", "everything is freed and %llu bytes are in use", (unsigned long long) s3[0]);
#endif
    vf::count("blocks handed to another thread", st.transfers.load());
    vf::evals(n * steps);
    vf::distinct(vf::mix(st.transfers.load() * 64 + n));
}

// Two heaps don't share memory, and the default heap serves new and delete.
VF_WORKLOAD_SERIAL(twoHeaps, 30, 400) {
#if PLY_USE_DLMALLOC
    static Heap_DL a, b;
    watched = 0;
    sw.live = nullptr;
    Driver<Heap_DL> da{a}, db{b};
    for (u32 i = 0; i < 400 && !vf::failed(); i++) {
        da.step(r, 0, 9);
        db.step(r, 1, 9);
    }
    if (vf::failed())
        return;
    for (auto& x : da.live) {
        auto it = db.live.lower_bound(x.first);
        VF_CHECK(it == db.live.end() || it->first >= x.first + x.second, "heap-overlap", "two heaps gave out the same memory");
        VF_CHECK(it == db.live.begin() || std::prev(it)->first + std::prev(it)->second <= x.first, "heap-overlap",
                 "two heaps gave out the same memory");
    }
    if (da.verifyAll() && db.verifyAll()) {
        da.freeAll(r);
        db.freeAll(r);
    }
    Heap_DL::Stats s0 = PLY_HEAP.getStats();
    char* volatile p = new char[100000 + r.below(400000)];
    Heap_DL::Stats s1 = PLY_HEAP.getStats();
    VF_CHECK(!PLY_REPLACE_OPERATOR_NEW || s1.inUseBytes >= s0.inUseBytes + 100000, "heap-new", "operator new does not use the default heap");
    delete[] p;
    Heap_DL::Stats s2 = PLY_HEAP.getStats();
    VF_CHECK(!PLY_REPLACE_OPERATOR_NEW || s2.inUseBytes == s0.inUseBytes, "heap-new", "operator delete left %lld bytes",
             (long long) (s2.inUseBytes - s0.inUseBytes));
#endif
    vf::evals(1);
    vf::distinct(vf::mix(r.u32()));
}

// Page-level memory: reserved ranges are disjoint, committed pages are zero and keep their contents.
VF_WORKLOAD_SERIAL(pages, 150, 2000) {
    watched = 0;
    const MemPage::Info& info = MemPage::getInfo();
    uptr g = info.allocationGranularity, ps = info.pageSize;
    VF_CHECK(g && (g & (g - 1)) == 0 && ps && (ps & (ps - 1)) == 0 && g % ps == 0, "page-info", "granularity %zu page %zu", g, ps);
    u32 n = 1 + r.below(24);
    char* base = nullptr;
    VF_CHECK(MemPage::reserve(base, g * n) && base && (uptr) base % g == 0, "page-reserve", "reserve failed");
    std::vector<int> committed(n, 0); // 0 no, else seed
    for (u32 s = 0; s < 60; s++) {
        u32 i = r.below(n), k = 1 + r.below(n - i);
        if (r.chance(1, 3)) {
            char* other = nullptr;
            VF_CHECK(MemPage::alloc(other, g * k) && other, "page-alloc", "alloc failed");
            VF_CHECK(other + g * k <= base || other >= base + g * n, "page-alloc", "alloc overlaps a reserved range");
            for (uptr j = 0; j < g * k; j += 512)
                VF_CHECK(other[j] == 0, "page-zero", "new pages are not zero");
            memset(other, 7, g * k);
            MemPage::free(other, g * k);
        } else if (r.chance(1, 2)) {
            MemPage::commit(base + g * i, g * k);
            for (u32 j = i; j < i + k; j++) {
                char* pg = base + g * j;
                if (!committed[j]) {
                    for (uptr x = 0; x < g; x += 64)
                        VF_CHECK(pg[x] == 0, "page-zero", "a page committed for the first time since it was reserved or decommitted is not zero");
                    committed[j] = 1 + (int) r.below(1000);
                    paint(pg, 0, g, committed[j]);
                }
            }
        } else {
            MemPage::decommit(base + g * i, g * k);
            for (u32 j = i; j < i + k; j++)
                committed[j] = 0;
        }
        for (u32 j = 0; j < n; j++)
            if (committed[j])
                VF_CHECK(intact(base + g * j, g, committed[j]), "page-contents", "page %u changed", j);
        vf::evals(1);
    }
    MemPage::free(base, g * n);
    vf::distinct(vf::mix(n * 7919 + r.u32()));
}
VF_MAIN()
