// BTree against std::multimap (equal keys in insertion order).
#include "plyvf.h"
#include <ply-runtime/container/BTree.h>
using namespace ply;
using vf::Tracked;

struct Rec {
    u32 id;
    u32 key;
    void* ctx;
};
static std::map<u32, void*> leafOf; // id -> node context reported by onItemMoved

struct IntItem {
    Tracked t{0}; // value = id
    u32 key = 0;
};
template <u32 Cap>
struct IntTraits {
    using Item = IntItem;
    using Index = u32;
    static constexpr u32 NodeCapacity = Cap;
    static Index getIndex(const Item& i) {
        return i.key;
    }
    static bool less(const Index& a, const Index& b) {
        return a < b;
    }
    static bool equal(const Item& i, u32 id) {
        return (u32) i.t.value == id;
    }
    static void onItemMoved(Item& i, void* ctx) {
        leafOf[(u32) i.t.value] = ctx;
    }
    static Item make(u32 id, u32 key) {
        Item i;
        i.t = Tracked{(s32) id};
        i.key = key;
        return i;
    }
    static Index probe(u32 key) {
        return key;
    }
    static u32 keyOf(const Item& i) {
        return i.key;
    }
};
struct StrItem {
    Tracked t{0};
    String name;
};
// The index views memory owned by the item, as the documentation cooker's symbol table does.
template <u32 Cap>
struct StrTraits {
    using Item = StrItem;
    using Index = StringView;
    static constexpr u32 NodeCapacity = Cap;
    static Index getIndex(const Item& i) {
        return i.name;
    }
    static bool less(const Index& a, const Index& b) {
        return a < b;
    }
    static bool equal(const Item& i, u32 id) {
        return (u32) i.t.value == id;
    }
    static void onItemMoved(Item& i, void* ctx) {
        leafOf[(u32) i.t.value] = ctx;
    }
    static Item make(u32 id, u32 key) {
        Item i;
        i.t = Tracked{(s32) id};
        i.name = vf::view(vf::fmt("symbol-name-%06u", key));
        return i;
    }
    static Index probe(u32 key) {
        static vf::Str s[4];
        static int n = 0;
        vf::Str& b = s[n++ & 3];
        b = vf::fmt("symbol-name-%06u", key);
        return vf::view(b);
    }
    static u32 keyOf(const Item& i) {
        return (u32) atoi(vf::str(i.name.view()).c_str() + 12);
    }
};

template <class Tr>
static void drive(vf::Rng& r, u32 universe, u32 steps) {
    typedef BTree<Tr> Tree;
    vf::Str log;
    Tracked::errors() = 0;
    leafOf.clear();
    s64 live0 = Tracked::live();
    {
        Tree tree;
        std::vector<Rec> m; // sorted by key, insertion order within a key
        u32 nextId = 1;
        u32 phase = 0;
        bool unique = r.chance(1, 3);
        for (u32 s = 0; s < steps; s++) {
            if (r.chance(1, 40))
                phase = r.below(3);
            if (log.size() > 3000)
                log = "..." + log.substr(log.size() - 1500);
            vf::ctx(log);
            u32 op = r.below(10);
            if (phase == 1 && r.chance(1, 2))
                op = 0;
            if (phase == 2 && r.chance(1, 2))
                op = 5;
            u32 key = r.below(universe);
            if (op < 5) {
                bool have = false;
                for (Rec& x : m)
                    have = have || x.key == key;
                if (unique && have)
                    continue;
                u32 id = nextId++;
                log += vf::fmt(" +%u", key);
                if (r.chance(1, 2))
                    tree.insert(Tr::make(id, key));
                else {
                    typename Tr::Item it = Tr::make(id, key);
                    tree.insert(it);
                }
                size_t p = 0;
                while (p < m.size() && m[p].key <= key)
                    p++;
                m.insert(m.begin() + p, Rec{id, key, nullptr});
            } else if (op < 9 && !m.empty()) {
                u32 p = op == 8 ? 0 : r.below((u32) m.size());
                log += vf::fmt(" -%u[%u]", m[p].key, p);
                typename Tr::Item got;
                if (op == 8) {
                    VF_CHECK((u32) tree.front().t.value == m[0].id, "btree-front", "front() is not the first item: %s",
                             log.c_str());
                    got = tree.popFront();
                } else if (op == 7) {
                    auto it = tree.locate(leafOf[m[p].id], m[p].id);
                    VF_CHECK((u32) it.getItem().t.value == m[p].id, "btree-locate", "locate() found another item: %s",
                             log.c_str());
                    got = tree.remove(it);
                } else {
                    auto it = tree.findFirstGreaterOrEqualTo(Tr::probe(m[p].key));
                    u32 q = p;
                    while (q > 0 && m[q - 1].key == m[p].key)
                        q--;
                    for (; q < p; q++)
                        it.next();
                    VF_CHECK(it.isValid() && (u32) it.getItem().t.value == m[p].id, "btree-find",
                             "item %u (key %u) not at its place: %s", m[p].id, m[p].key, log.c_str());
                    got = tree.remove(it);
                }
                VF_CHECK((u32) got.t.value == m[p].id && Tr::keyOf(got) == m[p].key, "btree-remove",
                         "remove returned id %d key %u, expected id %u key %u: %s", got.t.value, Tr::keyOf(got),
                         m[p].id, m[p].key, log.c_str());
                m.erase(m.begin() + p);
            } else if (r.chance(1, 30)) {
                log += " clear";
                tree.clear();
                m.clear();
            } else if (r.chance(1, 10)) {
                log += " mv";
                Tree other{std::move(tree)};
                VF_CHECK(tree.isEmpty(), "btree-move", "moved-from tree is not empty");
                for (u32 i = 0; i < 3; i++) {
                    typename Tr::Item it = Tr::make(1000000 + i, i);
                    tree.insert(it);
                }
                tree.clear();
                new (&tree) Tree{std::move(other)};
            }
            // ---- checks
            VF_CHECK(tree.isEmpty() == m.empty(), "btree-empty", "isEmpty() = %d with %zu items: %s",
                     (int) tree.isEmpty(), m.size(), log.c_str());
            if (r.chance(1, 4) || s + 1 == steps) {
                u32 n = 0;
                for (typename Tr::Item& it : tree) {
                    VF_CHECK(n < m.size() && (u32) it.t.value == m[n].id && it.t.ok() && Tr::keyOf(it) == m[n].key,
                             "btree-order", "item %u of %zu in iteration is id %d key %u, expected id %u key %u: %s", n,
                             m.size(), it.t.value, Tr::keyOf(it), n < m.size() ? m[n].id : 0,
                             n < m.size() ? m[n].key : 0, log.c_str());
                    n++;
                }
                VF_CHECK(n == m.size(), "btree-order", "iteration shows %u of %zu items: %s", n, m.size(), log.c_str());
            }
            u32 k = r.below(universe + 2);
            size_t lb = 0;
            while (lb < m.size() && m[lb].key < k)
                lb++;
            auto ge = tree.findFirstGreaterOrEqualTo(Tr::probe(k));
            VF_CHECK(ge.isValid() == (lb < m.size()), "btree-find", "findFirstGreaterOrEqualTo(%u) valid=%d: %s", k,
                     (int) ge.isValid(), log.c_str());
            if (lb < m.size()) {
                VF_CHECK((u32) ge.getItem().t.value == m[lb].id, "btree-find",
                         "findFirstGreaterOrEqualTo(%u) is id %d, expected %u: %s", k, ge.getItem().t.value, m[lb].id,
                         log.c_str());
                if (lb > 0 && r.chance(1, 3)) {
                    ge.prev();
                    VF_CHECK((u32) ge.getItem().t.value == m[lb - 1].id, "btree-iter", "prev() from %u: %s", k,
                             log.c_str());
                }
            }
            auto lt = tree.findLastLessThan(Tr::probe(k));
            VF_CHECK(lt.isValid() == (lb > 0), "btree-find", "findLastLessThan(%u) valid=%d: %s", k, (int) lt.isValid(),
                     log.c_str());
            if (lb > 0) {
                VF_CHECK((u32) lt.getItem().t.value == m[lb - 1].id, "btree-find",
                         "findLastLessThan(%u) is id %d, expected %u: %s", k, lt.getItem().t.value, m[lb - 1].id,
                         log.c_str());
                lt.next();
                VF_CHECK(lt.isValid() == (lb < m.size()) && (lb >= m.size() || (u32) lt.getItem().t.value == m[lb].id),
                         "btree-iter", "next() after findLastLessThan(%u): %s", k, log.c_str());
            }
            VF_CHECK(Tracked::live() - live0 == (s64) m.size() && Tracked::errors() == 0, "btree-lifetime",
                     "%lld live items for %zu held: %s", (long long) (Tracked::live() - live0), m.size(), log.c_str());
            vf::evals(1);
            vf::distinct(vf::mix(m.size() * 977 + (m.empty() ? 0 : m[m.size() / 2].key)));
            vf::maxOf("largest tree", m.size());
        }
    }
    VF_CHECK(Tracked::live() == live0 && Tracked::errors() == 0, "btree-lifetime", "items outlive the tree: %s",
             log.c_str());
    vf::sample(log);
}

VF_WORKLOAD(ints, 600, 12000) {
    u32 universe = 1 + r.size(300);
    switch (idx % 3) {
        case 0:
            drive<IntTraits<8>>(r, universe, 300);
            break;
        case 1:
            drive<IntTraits<16>>(r, universe, 300);
            break;
        case 2:
            drive<IntTraits<64>>(r, universe, 400);
            break;
    }
}
VF_WORKLOAD(deep, 60, 1200) {
    drive<IntTraits<8>>(r, 1 + r.size(5000), 3000);
}
VF_WORKLOAD(views, 400, 8000) {
    u32 universe = 1 + r.size(300);
    if (idx & 1)
        drive<StrTraits<8>>(r, universe, 250);
    else
        drive<StrTraits<16>>(r, universe, 250);
}
VF_MAIN()
