// Pool, BigPool and the label store: stable identities, exact contents, lifetimes.
#include "plyvf.h"
#include <ply-runtime/container/Pool.h>
#include <ply-runtime/container/BigPool.h>
#include <ply-runtime/string/Label.h>
using namespace ply;
using vf::Tracked;

template <typename T>
struct Mk;
template <>
struct Mk<Tracked> {
    static bool eq(const Tracked& t, int32_t v) {
        return t.magic == Tracked::Alive && t.ok() && t.value == v;
    }
};
struct Small {
    u32 v;
    Small(int32_t x) : v{(u32) x} {
    }
};
template <>
struct Mk<Small> {
    static bool eq(const Small& t, int32_t v) {
        return t.v == (u32) v;
    }
};

template <typename T>
static void poolCase(vf::Rng& r) {
    int64_t l0 = Tracked::live();
    const bool tracked = std::is_same<T, Tracked>::value;
    vf::Str log;
    {
        Pool<T> pool;
        std::map<u32, int32_t> mod;
        std::map<u32, int32_t> everFreed;
        u32 steps = 5 + r.below(vf::thorough() ? 400 : 120);
        int32_t next = 1;
        u32 bias = r.below(3);
        for (u32 s = 0; s < steps; s++) {
            u32 op = r.below(10);
            if (bias == 0 && op < 3)
                op = 5;
            if (op < 5) {
                u32 n = r.chance(1, 6) ? r.size(60) : 1;
                for (u32 i = 0; i < n; i++) {
                    int32_t v = next++;
                    auto idx = pool.template newItem<u32>(v);
                    VF_CHECK(idx.isValid() && !mod.count(idx.idx), "pool-reuse",
                             "newItem returned index %u, which is in use, after %s", idx.idx, log.c_str());
                    if (everFreed.count(idx.idx))
                        vf::count("indices reused");
                    mod[idx.idx] = v;
                }
                log += vf::fmt("new x%u ", n);
            } else if (op < 8 && !mod.empty()) {
                u32 n = r.chance(1, 6) ? r.below((u32) mod.size()) + 1 : 1;
                for (u32 i = 0; i < n; i++) {
                    auto it = mod.begin();
                    std::advance(it, r.below((u32) mod.size()));
                    log += vf::fmt("del(%u) ", it->first);
                    pool.delItem(PoolIndex<T, u32>{it->first});
                    everFreed[it->first] = 1;
                    mod.erase(it);
                }
            } else if (op == 8 && r.chance(1, 8)) {
                pool.clear();
                mod.clear();
                log += "clear ";
            }
            if (log.size() > 3000)
                log = "..." + log.substr(log.size() - 2000);
            vf::ctx(log);
            // Every live index reads back its own item
            for (auto& m : mod) {
                PoolPtr<T> p = pool.get(PoolIndex<T, u32>{m.first});
                VF_CHECK(p && Mk<T>::eq(*p.get(), m.second), "pool-get", "item %u is not the one stored after %s",
                         m.first, log.c_str());
                VF_CHECK(pool.indexOf(p.get()) == m.first, "pool-indexof", "indexOf(%u) after %s", m.first,
                         log.c_str());
                const Pool<T>& cp = pool;
                auto q = cp.get(PoolIndex<T, u32>{m.first});
                VF_CHECK(q.get() == p.get(), "pool-get", "const get differs");
            }
            if (tracked)
                VF_CHECK(Tracked::live() - l0 == (int64_t) mod.size() && !Tracked::errors(), "pool-lifetime",
                         "%lld items alive, %zu in the pool after %s", (long long) (Tracked::live() - l0), mod.size(),
                         log.c_str());
            if (s % 4 == 3) {
                // Iteration visits exactly the live items, in index order, once each
                auto m = mod.begin();
                for (auto it = pool.begin(); it != pool.end(); ++it) {
                    u32 idx = it.template getIndex<u32>().idx;
                    VF_CHECK(m != mod.end() && idx == m->first && Mk<T>::eq(*(*it).get(), m->second), "pool-iter",
                             "iteration reached index %u, expected %d, after %s", idx,
                             m == mod.end() ? -1 : (int) m->first, log.c_str());
                    VF_CHECK(it.isValid(), "pool-iter", "iterator at %u is not valid", idx);
                    ++m;
                }
                VF_CHECK(m == mod.end(), "pool-iter", "iteration ended before index %u after %s", m->first,
                         log.c_str());
            }
        }
        vf::maxOf("pool items", mod.size());
        vf::evals(steps);
        vf::distinct(vf::hashStr(log));
        if (vf::wantSample())
            vf::sample(log.substr(0, 300));
    }
    VF_CHECK(!tracked || Tracked::live() == l0, "pool-lifetime", "%lld items alive after the pool is gone",
             (long long) (Tracked::live() - l0));
}
VF_WORKLOAD(pool, 4000, 40000) {
    size_t b0 = vf::liveBytes();
    if (idx % 2)
        poolCase<Tracked>(r);
    else
        poolCase<Small>(r);
    if (!vf::failed())
        VF_CHECK(vf::liveBytes() == b0, "pool-leak", "%zd bytes outlive the pool",
                 (ssize_t) (vf::liveBytes() - b0));
}

// Handles that own a pool slot
static Pool<Tracked>* handlePool;
struct HTraits {
    typedef Tracked T;
    typedef u16 Index;
    static Pool<Tracked>& getPool() {
        return *handlePool;
    }
};
VF_WORKLOAD(pool_handles, 1500, 10000) {
    int64_t l0 = Tracked::live();
    {
        Pool<Tracked> pool;
        handlePool = &pool;
        std::vector<OwnPoolHandle<HTraits>*> hs;
        std::vector<int32_t> val;
        for (u32 s = 0; s < 60; s++) {
            switch (r.below(5)) {
                case 0:
                case 1: {
                    int32_t v = (int32_t) r.below(100000);
                    auto i = pool.newItem<u16>(v);
                    hs.push_back(new OwnPoolHandle<HTraits>{i.idx});
                    val.push_back(v);
                    break;
                }
                case 2:
                    if (!hs.empty()) {
                        u32 k = r.below((u32) hs.size());
                        delete hs[k];
                        hs.erase(hs.begin() + k);
                        val.erase(val.begin() + k);
                    }
                    break;
                case 3:
                    if (!hs.empty()) {
                        u32 k = r.below((u32) hs.size());
                        auto* h = new OwnPoolHandle<HTraits>{std::move(*hs[k])};
                        VF_CHECK(!hs[k]->isValid(), "handle-move", "moved-from handle still owns its item");
                        delete hs[k];
                        hs[k] = h;
                    }
                    break;
                case 4:
                    if (!hs.empty()) {
                        u32 k = r.below((u32) hs.size());
                        int32_t v = (int32_t) r.below(100000);
                        auto i = pool.newItem<u16>(v);
                        hs[k]->assign(PoolIndex<Tracked, u16>{i.idx});
                        val[k] = v;
                    }
                    break;
            }
            for (u32 k = 0; k < hs.size(); k++) {
                auto p = hs[k]->get();
                VF_CHECK(Mk<Tracked>::eq(*p.get(), val[k]), "handle-get", "handle %u refers to another item", k);
            }
            VF_CHECK(Tracked::live() - l0 == (int64_t) hs.size(), "handle-lifetime", "%lld items for %zu handles",
                     (long long) (Tracked::live() - l0), hs.size());
        }
        vf::distinct(vf::mix(idx * 77 + hs.size()));
        for (auto* h : hs)
            delete h;
    }
    VF_CHECK(Tracked::live() == l0, "handle-lifetime", "items outlive their handles");
}

template <typename T>
static void bigCase(vf::Rng& r) {
    // Small reservations too, so that the committed size runs right up to the reserved size
    uptr cap = r.chance(1, 2) ? (uptr) (1 + r.below(64)) * 4096 : 64u << 20;
    BigPool<T> pool{cap};
    uptr maxItems = alignPowerOf2(cap, (uptr) 4096) / sizeof(T);
    std::vector<T> mod;
    const T* first = nullptr;
    u32 steps = 3 + r.below(60);
    for (u32 s = 0; s < steps; s++) {
        u32 n = r.chance(1, 2) ? 1 : r.size(r.chance(1, 6) ? 30000 : 600);
        if (r.chance(1, 10) && maxItems - mod.size() < 100000)
            n = (u32) (maxItems - mod.size()); // exactly fill the reservation
        if (mod.size() + n > maxItems)
            break;
        int how = r.below(4);
        vf::ctx(vf::fmt("cap=%zu size=%zu n=%u how=%d item=%zu", (size_t) cap, mod.size(), n, how, sizeof(T)));
        if (how == 0) {
            T* p = pool.alloc(n);
            for (u32 i = 0; i < n; i++) {
                p[i] = (T) r.u64();
                mod.push_back(p[i]);
            }
        } else if (how == 1) {
            T* p = pool.beginWrite(n);
            u32 k = r.below(n + 1);
            memset((void*) p, 0x5a, sizeof(T) * n);
            for (u32 i = 0; i < k; i++) {
                p[i] = (T) r.u64();
                mod.push_back(p[i]);
            }
            pool.endWrite(k);
        } else {
            for (u32 i = 0; i < (n < 300 ? n : 300); i++) {
                T v = (T) r.u64();
                T& ref = pool.append(v);
                VF_CHECK(ref == v && &ref == &pool.back(), "bigpool-append", "append returned another item");
                mod.push_back(v);
            }
        }
        VF_CHECK(pool.numItems() == mod.size(), "bigpool-size", "%zu items, expected %zu", (size_t) pool.numItems(),
                 mod.size());
        if (mod.empty())
            continue;
        if (!first)
            first = pool.get(0);
        VF_CHECK(pool.get(0) == first && pool.end() == first + mod.size(), "bigpool-address",
                 "items moved as the pool grew");
        VF_CHECK(memcmp(first, mod.data(), mod.size() * sizeof(T)) == 0, "bigpool-contents",
                 "contents changed as the pool grew to %zu", mod.size());
        VF_CHECK(pool[mod.size() - 1] == mod.back(), "bigpool-contents", "last item");
    }
    vf::maxOf("bigpool items", mod.size());
    vf::distinct(vf::mix(mod.size() * 4096 + cap));
}
VF_WORKLOAD(bigpool, 1200, 8000) {
    switch (idx % 3) {
        case 0:
            bigCase<char>(r);
            break;
        case 1:
            bigCase<u32>(r);
            break;
        default:
            bigCase<u64>(r);
            break;
    }
}

// One label per distinct string, for ever
VF_WORKLOAD_SERIAL(labels, 60, 600) {
    LabelMap own;
    LabelMap& map = (idx % 4 == 0) ? LabelMap::instance : own;
    static std::map<vf::Str, u32> globalMod;
    std::map<vf::Str, u32> localMod;
    std::map<vf::Str, u32>& mod = (idx % 4 == 0) ? globalMod : localMod;
    std::map<u32, vf::Str> byId;
    for (auto& m : mod)
        byId[m.second] = m.first;
    u32 n = 1 + r.size(vf::thorough() ? 6000 : 2000);
    vf::Str shared = vf::randBytes(r, 40);
    for (u32 i = 0; i < n; i++) {
        vf::Str s;
        switch (r.below(6)) {
            case 0:
                s = vf::randBytes(r, 12);
                break;
            case 1:
                s = shared.substr(0, r.below((u32) shared.size() + 1)); // prefixes of each other
                break;
            case 2:
                s = vf::Str(r.size(20000), (char) ('a' + r.below(3)));
                break;
            case 3:
                s = vf::Str(126 + r.below(4), (char) r.below(3)); // around the length encoding's boundary
                break;
            case 4:
                s = vf::fmt("label%u", r.below(n));
                break;
            default:
                s = vf::randOver(r, "ab", 6);
        }
        vf::ctx(vf::fmt("label %zu bytes", s.size()) + vf::esc(s.substr(0, 200)));
        auto it = mod.find(s);
        Label f = map.find(vf::view(s));
        VF_CHECK(f.isValid() == (it != mod.end()) && (!f.isValid() || f.idx == it->second), "label-find",
                 "find() of a %s string gave %u: %s", it == mod.end() ? "new" : "known", f.idx,
                 vf::esc(s.substr(0, 60)).c_str());
        Label l = map.insertOrFind(vf::view(s));
        VF_CHECK(l.isValid(), "label-insert", "insertOrFind returned an invalid label");
        VF_CHECK(it == mod.end() || it->second == l.idx, "label-stable", "a string's label changed: %s",
                 vf::esc(s.substr(0, 60)).c_str());
        VF_CHECK(it != mod.end() || !byId.count(l.idx), "label-unique", "two strings share label %u", l.idx);
        mod[s] = l.idx;
        byId[l.idx] = s;
        VF_CHECK(vf::str(map.view(l)) == s, "label-view", "view() gives another string: %s",
                 vf::esc(s.substr(0, 60)).c_str());
    }
    for (auto& m : mod) {
        VF_CHECK(vf::str(map.view(Label{m.second})) == m.first, "label-view", "text of label %u changed", m.second);
        VF_CHECK(map.find(vf::view(m.first)).idx == m.second, "label-find", "label %u lost", m.second);
    }
    vf::evals(n);
    vf::maxOf("labels", mod.size());
    vf::distinct(vf::mix(idx * 100003 + mod.size()));
}
VF_MAIN()
