// HashMap against std::map, over several Traits (sets, maps, indices into another container, weak hashes).
#include "plyvf.h"
#include <ply-runtime/container/HashMap.h>
#include <ply-runtime/container/Owned.h>
using namespace ply;
using vf::Tracked;

static u32 weakMode = 0;
static u32 weakHash(u32 k) {
    switch (weakMode) {
        case 0:
            return k;
        case 1:
            return k & 7;
        case 2:
            return 0xfffffffcu + (k % 5); // wraps around the end of the table
        case 3:
            return k << 28;
        case 4:
            return 42;
        default:
            return k * 3 / 2;
    }
}

struct SetTraits {
    using Key = u32;
    using Item = u32;
    static bool match(u32 item, u32 key) {
        return item == key;
    }
    static u32 keyOf(const Item& i) {
        return i;
    }
    static Key make(u32 v) {
        return v * 2654435761u;
    }
    static bool eqKey(const Item& i, u32 v) {
        return i == make(v);
    }
    static void setVal(Item&, s32) {
    }
    static bool eqVal(const Item&, s32) {
        return true;
    }
};
struct TrackedTraits {
    using Key = u32;
    struct Item {
        u32 key;
        Tracked val{-7};
        Item(u32 k) : key{k} {
        }
    };
    static bool match(const Item& item, u32 key) {
        return item.key == key;
    }
    static Key make(u32 v) {
        return v;
    }
    static bool eqKey(const Item& i, u32 v) {
        return i.key == v;
    }
    static void setVal(Item& i, s32 v) {
        i.val = Tracked{v};
    }
    static bool eqVal(const Item& i, s32 v) {
        return i.val.ok() && i.val.value == v;
    }
};
struct WeakTraits : TrackedTraits {
    static u32 hash(u32 key) {
        return weakHash(key);
    }
};
static const char* const words[] = {"", "a", "ab", "abc", "abcd", "abcde", "aaaa", "aaab", "\xff\xff\xff\xff"};
struct StringTraits {
    using Key = StringView;
    struct Item {
        String key;
        Tracked val{-7};
        Item(StringView k) : key{k} {
        }
    };
    static bool match(const Item& item, const StringView& key) {
        return item.key == key;
    }
    static Key make(u32 v) {
        static vf::Str bufs[4];
        static int n = 0;
        vf::Str& b = bufs[n++ & 3];
        b = v < 9 ? vf::Str(words[v]) : vf::fmt("%u", v) + vf::Str(v % 7, 'x');
        return vf::view(b);
    }
    static bool eqKey(const Item& i, u32 v) {
        return vf::str(i.key.view()) == vf::str(make(v));
    }
    static void setVal(Item& i, s32 v) {
        i.val = Tracked{v};
    }
    static bool eqVal(const Item& i, s32 v) {
        return i.val.ok() && i.val.value == v;
    }
};

template <class Tr>
struct Driver {
    typedef HashMap<Tr> Map;
    typedef typename Tr::Item Item;
    typedef std::map<u32, s32> Model;
    vf::Str log;

    bool verify(Map& map, const Model& m, u32 universe, bool full) {
        VF_CHECKR(map.numItems() == m.size() && map.isEmpty() == m.empty(), false, "hashmap-size",
                  "numItems %u, expected %zu after %s", map.numItems(), m.size(), log.c_str());
        if (!full)
            return true;
        const Map& cm = map;
        for (u32 k = 0; k < universe; k++) {
            auto it = m.find(k);
            auto c = cm.find(Tr::make(k));
            VF_CHECKR(c.wasFound() == (it != m.end()) && c.isValid() == c.wasFound(), false, "hashmap-find",
                      "key %u %s but find says %d after %s", k, it != m.end() ? "present" : "absent",
                      (int) c.wasFound(), log.c_str());
            if (it != m.end())
                VF_CHECKR(Tr::eqKey(*c, k) && Tr::eqVal(*c, it->second), false, "hashmap-find",
                          "find(%u) returned another item (expected value %d) after %s", k, it->second, log.c_str());
        }
        std::map<u32, u32> seen;
        u32 n = 0;
        for (const Item& i : cm) {
            bool hit = false;
            for (auto& kv : m)
                if (Tr::eqKey(i, kv.first)) {
                    hit = true;
                    seen[kv.first]++;
                    VF_CHECKR(Tr::eqVal(i, kv.second), false, "hashmap-iter", "iteration shows a wrong value for %u",
                              kv.first);
                }
            VF_CHECKR(hit, false, "hashmap-iter", "iteration shows an item that was not inserted after %s", log.c_str());
            n++;
        }
        VF_CHECKR(n == m.size() && seen.size() == m.size(), false, "hashmap-iter",
                  "iteration shows %u items (%zu distinct), map has %zu after %s", n, seen.size(), m.size(),
                  log.c_str());
        n = 0;
        for (Item& i : map) {
            PLY_UNUSED(i);
            n++;
        }
        VF_CHECKR(n == m.size(), false, "hashmap-iter", "mutable iteration shows %u of %zu items", n, m.size());
        return true;
    }
    void run(vf::Rng& r, u32 universe, u32 maxItems, u32 steps) {
        s64 live0 = Tracked::live();
        Tracked::errors() = 0;
        bool track = !std::is_same<Tr, SetTraits>::value;
        {
            Map map = r.chance(1, 2) ? Map{} : Map{4u << r.below(5)};
            Model m;
            s32 val = 1;
            u32 bias = r.below(3);
            for (u32 s = 0; s < steps; s++) {
                if (log.size() > 3000)
                    log = "..." + log.substr(log.size() - 1500);
                vf::ctx(log);
                u32 k = r.below(universe);
                u32 op = r.below(12);
                if (m.size() >= maxItems && op < 5)
                    op = 6;
                if (bias == 1 && r.chance(1, 3))
                    op = 0;
                if (m.size() >= maxItems && op < 5)
                    op = 6;
                switch (op) {
                    case 0:
                    case 1:
                    case 2:
                    case 3:
                    case 4: { // insertOrFind
                        log += vf::fmt(" +%u", k);
                        auto c = map.insertOrFind(Tr::make(k));
                        bool had = m.count(k) > 0;
                        VF_CHECK(c.isValid() && c.wasFound() == had, "hashmap-insert",
                                 "insertOrFind(%u): wasFound %d, key was %s; after %s", k, (int) c.wasFound(),
                                 had ? "present" : "absent", log.c_str());
                        if (had) {
                            VF_CHECK(Tr::eqKey(*c, k) && Tr::eqVal(*c, m[k]), "hashmap-insert",
                                     "insertOrFind(%u) returned another item after %s", k, log.c_str());
                        } else if (track) {
                            VF_CHECK(Tr::eqKey(*c, k) && Tr::eqVal(*c, -7), "hashmap-insert",
                                     "new item for %u is not freshly constructed after %s", k, log.c_str());
                        } else {
                            VF_CHECK(Tr::eqKey(*c, k), "hashmap-insert", "new item for %u has another key", k);
                        }
                        Tr::setVal(*c, val);
                        m[k] = val++;
                        break;
                    }
                    case 5:
                    case 6:
                    case 7: { // erase
                        log += vf::fmt(" -%u", k);
                        auto c = map.find(Tr::make(k));
                        VF_CHECK(c.wasFound() == (m.count(k) > 0), "hashmap-find", "find(%u) = %d after %s", k,
                                 (int) c.wasFound(), log.c_str());
                        if (c.wasFound()) {
                            c.erase();
                            VF_CHECK(!c.wasFound(), "hashmap-erase", "cursor still valid after erase");
                            m.erase(k);
                        }
                        break;
                    }
                    case 8: { // find + modify
                        auto c = map.find(Tr::make(k));
                        VF_CHECK(c.wasFound() == (m.count(k) > 0), "hashmap-find", "find(%u) = %d after %s", k,
                                 (int) c.wasFound(), log.c_str());
                        if (c.wasFound()) {
                            Tr::setVal(*c, val);
                            m[k] = val++;
                        }
                        break;
                    }
                    case 9:
                        if (r.chance(1, 8)) { // move construct + move assign back
                            log += " mv";
                            Map other{std::move(map)};
                            if (!verify(other, m, universe, true))
                                return;
                            map = std::move(other);
                        } else if (r.chance(1, 8)) {
                            log += " clear";
                            map.clear();
                            VF_CHECK(map.isEmpty() && map.numItems() == 0, "hashmap-clear", "not empty after clear");
                            for (auto& i : map) {
                                PLY_UNUSED(i);
                                vf::fail("hashmap-clear", "iteration over a cleared map shows an item");
                            }
                            map = Map{};
                            m.clear();
                        }
                        break;
                    case 10: { // erase through a cursor obtained by insertOrFind
                        auto c = map.insertOrFind(Tr::make(k));
                        log += vf::fmt(" +-%u", k);
                        VF_CHECK(c.wasFound() == (m.count(k) > 0), "hashmap-insert", "insertOrFind(%u) = %d", k,
                                 (int) c.wasFound());
                        c.erase();
                        m.erase(k);
                        break;
                    }
                    default:
                        break;
                }
                if (!verify(map, m, universe, r.chance(1, 6) || s + 1 == steps))
                    return;
                if (track)
                    VF_CHECK(Tracked::live() - live0 == (s64) m.size() && Tracked::errors() == 0, "hashmap-lifetime",
                             "%lld live items for %zu in the map after %s", (long long) (Tracked::live() - live0),
                             m.size(), log.c_str());
                vf::evals(1);
                vf::distinct(vf::mix(m.size() * 4099 + (m.empty() ? 0 : m.begin()->first) * 31 + universe));
                vf::maxOf("largest map", m.size());
            }
        }
        VF_CHECK(Tracked::live() == live0 && Tracked::errors() == 0, "hashmap-lifetime",
                 "%lld items outlive their map (or were destroyed twice) after %s",
                 (long long) (Tracked::live() - live0), log.c_str());
        vf::sample(log);
    }
};

VF_WORKLOAD(set, 300, 6000) {
    Driver<SetTraits>{}.run(r, 4 + r.size(400), ~0u, 100 + r.below(500));
}
VF_WORKLOAD(tracked, 300, 6000) {
    Driver<TrackedTraits>{}.run(r, 4 + r.size(300), ~0u, 100 + r.below(500));
}
VF_WORKLOAD(strings, 300, 6000) {
    Driver<StringTraits>{}.run(r, 4 + r.size(200), ~0u, 100 + r.below(400));
}
// Badly distributed hashes; populations stay below the documented linear probing limit.
VF_WORKLOAD(weak, 600, 12000) {
    weakMode = (u32)(idx % 6);
    Driver<WeakTraits>{}.run(r, 4 + r.size(160), 100, 100 + r.below(500));
}

// Long probe chains: consecutive same-hash items up to 127 cells apart, then erased in any order.
VF_WORKLOAD(longChains, 400, 8000) {
    static const u32 hashBits[] = {0, 0, 1, 7, 0xff};
    weakMode = r.pick(hashBits); // how far hashes within the bucket differ
    struct Tr : TrackedTraits {
        // keys >= 1<<16 all go to the same bucket
        static u32 hash(u32 key) {
            return key >= 65536 ? 16u | (key & weakMode) << 20 : key;
        }
    };
    s64 live0 = Tracked::live();
    Tracked::errors() = 0;
    vf::Str log;
    {
        HashMap<Tr> map{2048};
        std::map<u32, s32> m;
        s32 val = 1;
        auto put = [&](u32 k) {
            auto c = map.insertOrFind(k);
            VF_EXPECT(!c.wasFound(), "hashmap-insert", "key %u already present", k);
            Tr::setVal(*c, val);
            m[k] = val++;
        };
        u32 links = 2 + r.below(8), tail = 16;
        put(65536);
        for (u32 i = 1; i < links; i++) {
            u32 gap = r.chance(1, 3) ? 126 + r.below(2) : r.below(127);
            for (u32 j = 1; j <= gap; j++)
                put(tail + j);
            put(65536 + i);
            tail += gap + 1;
            log += vf::fmt(" gap%u", gap);
        }
        while (!m.empty() && !vf::failed()) {
            u32 k;
            if (r.chance(1, 3)) {
                std::vector<u32> same;
                for (auto& kv : m)
                    if (kv.first >= 65536)
                        same.push_back(kv.first);
                k = same.empty() ? m.begin()->first : r.pick(same);
            } else {
                auto it = m.begin();
                std::advance(it, r.below((u32) m.size()));
                k = it->first;
            }
            log += vf::fmt(" -%u", k);
            vf::ctx(log);
            auto c = map.find(k);
            VF_CHECK(c.wasFound(), "hashmap-longchain", "key %u lost: %s", k, log.c_str());
            c.erase();
            m.erase(k);
            u32 probe = 0;
            for (u32 q = 65536; q < 65536 + links; q++) {
                auto c2 = map.find(q);
                auto it = m.find(q);
                VF_CHECK(c2.wasFound() == (it != m.end()) && (it == m.end() || Tr::eqVal(*c2, it->second)),
                         "hashmap-longchain", "key %u %s: %s", q, c2.wasFound() ? "resurrected or mixed up" : "lost",
                         log.c_str());
                probe++;
            }
            VF_CHECK(map.numItems() == m.size(), "hashmap-longchain", "size %u, expected %zu: %s", map.numItems(),
                     m.size(), log.c_str());
            vf::evals(1);
        }
        vf::distinct(vf::hashStr(log));
    }
    VF_CHECK(Tracked::live() == live0 && Tracked::errors() == 0, "hashmap-lifetime", "items leaked: %s", log.c_str());
}

// An index into another container through the lookup context.
VF_WORKLOAD(context, 300, 6000) {
    struct Tr {
        using Key = StringView;
        using Item = u32;
        using Context = Array<String>;
        static bool match(u32 id, const StringView& key, const Array<String>& arr) {
            return arr[id] == key;
        }
    };
    Array<String> arr;
    HashMap<Tr> map;
    std::map<vf::Str, u32> m;
    u32 universe = 2 + r.size(200);
    for (u32 s = 0; s < 300; s++) {
        vf::Str k = vf::fmt("k%u", r.below(universe));
        vf::ctx(k);
        if (r.chance(2, 3)) {
            auto c = map.insertOrFind(vf::view(k), &arr);
            VF_CHECK(c.wasFound() == (m.count(k) > 0), "hashmap-context", "insertOrFind(%s)=%d", k.c_str(),
                     (int) c.wasFound());
            if (!c.wasFound()) {
                *c = arr.numItems();
                m[k] = arr.numItems();
                arr.append(vf::view(k));
            } else
                VF_CHECK(*c == m[k], "hashmap-context", "%s maps to %u, expected %u", k.c_str(), *c, m[k]);
        } else {
            auto c = map.find(vf::view(k), &arr);
            VF_CHECK(c.wasFound() == (m.count(k) > 0), "hashmap-context", "find(%s)=%d", k.c_str(), (int) c.wasFound());
            if (c.wasFound()) {
                VF_CHECK(*c == m[k], "hashmap-context", "%s maps to %u, expected %u", k.c_str(), *c, m[k]);
                if (r.chance(1, 2)) {
                    c.erase();
                    m.erase(k);
                }
            }
        }
        VF_CHECK(map.numItems() == m.size(), "hashmap-context", "size");
        vf::evals(1);
    }
    vf::distinct(vf::mix(universe * 1000 + m.size()));
}

// Large maps with the library's own hash functions.
VF_WORKLOAD(large, 8, 60) {
    HashMap<SetTraits> map;
    std::set<u32> m;
    u32 n = 20000 + r.below(40000);
    for (u32 i = 0; i < n; i++) {
        u32 k = r.chance(1, 2) ? i : r.u32() % 100000;
        bool had = m.count(k) > 0;
        if (had && r.chance(1, 2)) {
            auto c = map.find(SetTraits::make(k));
            VF_CHECK(c.wasFound(), "hashmap-find", "large: %u lost", k);
            c.erase();
            m.erase(k);
        } else {
            VF_CHECK(map.insertOrFind(SetTraits::make(k)).wasFound() == had, "hashmap-insert", "large: %u", k);
            m.insert(k);
        }
    }
    VF_CHECK(map.numItems() == m.size(), "hashmap-size", "large: size");
    for (u32 k = 0; k < 100000; k++)
        VF_CHECK(map.find(SetTraits::make(k)).wasFound() == (m.count(k) > 0), "hashmap-find", "large: %u", k);
    vf::evals(n);
    vf::distinct(n);
    vf::maxOf("largest map", m.size());
}

// The hash of equal keys is equal wherever the key lives in memory; floats hash by value.
VF_WORKLOAD(hashes, 3000, 60000) {
    vf::Str s = vf::randBytes(r, 64);
    u32 off = 1 + r.below(8);
    vf::Str pad = vf::Str(off, 'q') + s + "zz";
    VF_CHECK(Hasher::hash(vf::view(s)) == Hasher::hash(StringView{pad.data() + off, (u32) s.size()}), "hash-equal",
             "equal strings hash differently: %s", vf::esc(s).c_str());
    float z = 0.f, nz = -0.f;
    VF_CHECK(Hasher::hash(z) == Hasher::hash(nz), "hash-equal", "0 and -0 compare equal, hash differently");
    if (!s.empty()) {
        vf::Str t = s;
        t[r.below((u32) t.size())] ^= (char) (1 + r.below(255));
        // one changed byte must change the hash (32-bit mixing steps are bijective)
        VF_CHECK(Hasher::hash(vf::view(s)) != Hasher::hash(vf::view(t)), "hash-sensitive",
                 "one changed byte keeps the hash: %s", vf::esc(s).c_str());
    }
    vf::distinct(s);
}
VF_MAIN()
