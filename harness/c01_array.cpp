// Array / ArrayView / FixedArray against a std::vector model, with lifetime-tracking items.
#include "plyvf.h"
#include <ply-runtime/container/FixedArray.h>
using namespace ply;
using vf::Tracked;

template <typename T>
struct Ops;
template <>
struct Ops<Tracked> {
    static Tracked make(int32_t v) {
        return Tracked{v};
    }
    static bool eq(const Tracked& t, int32_t v) {
        return t.magic == Tracked::Alive && t.ok() && t.value == v;
    }
    static int32_t def() {
        return 0;
    }
};
template <>
struct Ops<u32> {
    static u32 make(int32_t v) {
        return (u32) v;
    }
    static bool eq(u32 t, int32_t v) {
        return t == (u32) v;
    }
};
template <>
struct Ops<String> {
    static String make(int32_t v) {
        return String{v == 0 ? vf::view("") : vf::view(vf::fmt("item-%d-with-some-text", v))};
    }
    static bool eq(const String& t, int32_t v) {
        return vf::str(t.view()) == (v == 0 ? vf::Str() : vf::fmt("item-%d-with-some-text", v));
    }
};
template <>
struct Ops<u8> {
    static u8 make(int32_t v) {
        return (u8) v;
    }
    static bool eq(u8 t, int32_t v) {
        return t == (u8) v;
    }
};

static int32_t nextVal = 1;

template <typename T>
struct Driver {
    static const int K = 3;
    Array<T> arr[K];
    std::vector<int32_t> mod[K];
    vf::Str log;
    int64_t live0 = Tracked::live();
    bool skipDefaults; // default-constructed plain items have no defined value

    bool same(ArrayView<const T> v, const std::vector<int32_t>& m, const char* what) {
        if (v.numItems != m.size()) {
            vf::fail("array-content", "%s: %u items, expected %zu after %s", what, v.numItems, m.size(), log.c_str());
            return false;
        }
        for (u32 i = 0; i < m.size(); i++) {
            if (!Ops<T>::eq(v.items[i], m[i])) {
                vf::fail("array-content", "%s: item %u of %zu differs (expected %d) after %s", what, i, m.size(), m[i],
                         log.c_str());
                return false;
            }
        }
        return true;
    }
    bool verify() {
        int64_t total = 0;
        for (int k = 0; k < K; k++) {
            const Array<T>& c = arr[k];
            if (!same(c.view(), mod[k], "array"))
                return false;
            VF_CHECKR(c.numItems() == mod[k].size() && c.isEmpty() == mod[k].empty() &&
                          (bool) c == !mod[k].empty() && c.sizeBytes() == mod[k].size() * sizeof(T) &&
                          c.end() - c.begin() == (ptrdiff_t) mod[k].size(),
                      false, "array-size", "size accessors disagree after %s", log.c_str());
            u32 n = 0;
            for (const T& t : c) {
                VF_CHECKR(n < mod[k].size() && Ops<T>::eq(t, mod[k][n]), false, "array-iter",
                          "range-for item %u differs after %s", n, log.c_str());
                n++;
            }
            VF_CHECKR(n == mod[k].size(), false, "array-iter", "range-for saw %u of %zu items after %s", n,
                      mod[k].size(), log.c_str());
            for (u32 i = 0; i < mod[k].size(); i++)
                VF_CHECKR(Ops<T>::eq(c[i], mod[k][i]) && c.get(i) == c.begin() + i &&
                              &c.back(-1 - (s32) i) == c.begin() + (mod[k].size() - 1 - i),
                          false, "array-access", "element access differs at %u after %s", i, log.c_str());
            total += (int64_t) mod[k].size();
        }
        if (std::is_same<T, Tracked>::value) {
            VF_CHECKR(Tracked::live() - live0 == total, false, "array-lifetime",
                      "%lld live items, arrays hold %lld after %s", (long long) (Tracked::live() - live0),
                      (long long) total, log.c_str());
            VF_CHECKR(Tracked::errors() == 0, false, "array-lifetime", "an item was used while dead after %s",
                      log.c_str());
        }
        return true;
    }
    void step(vf::Rng& r) {
        int k = r.below(K), j = (k + 1 + r.below(K - 1)) % K;
        Array<T>& a = arr[k];
        std::vector<int32_t>& m = mod[k];
        u32 n = (u32) m.size();
        int op = r.below(26);
        u32 pos = r.below(n + 1);
        switch (op) {
            case 0:
            case 1: {
                int32_t v = nextVal++;
                T& ref = a.append(Ops<T>::make(v));
                m.push_back(v);
                log += vf::fmt(" append%d", k);
                VF_CHECK(&ref == a.end() - 1, "array-append", "append returned another item's address");
                break;
            }
            case 2: {
                int32_t v = nextVal++;
                T t = Ops<T>::make(v);
                a.append(t);
                VF_CHECK(Ops<T>::eq(t, v), "array-append", "append(const T&) changed its argument");
                m.push_back(v);
                log += vf::fmt(" appendc%d", k);
                break;
            }
            case 3: {
                u32 c = r.size(40);
                Array<T> other;
                std::vector<int32_t> mo;
                for (u32 i = 0; i < c; i++) {
                    other.append(Ops<T>::make(nextVal));
                    mo.push_back(nextVal++);
                }
                log += vf::fmt(" extend%d(%u)", k, c);
                if (r.chance(1, 2)) {
                    a.extend(ArrayView<const T>{other.begin(), other.numItems()});
                    if (!same(other, mo, "extend source"))
                        return;
                } else if (r.chance(1, 2)) {
                    a.extend(std::move(other));
                } else {
                    a.moveExtend(other.view());
                    VF_CHECK(other.numItems() == c, "array-extend", "moveExtend resized its argument");
                }
                m.insert(m.end(), mo.begin(), mo.end());
                break;
            }
            case 4: {
                if (skipDefaults)
                    break;
                u32 c = r.size(6);
                log += vf::fmt(" insert%d(%u,%u)", k, pos, c);
                if (c == 1 && r.chance(1, 2)) {
                    T& x = a.insert(pos);
                    VF_CHECK(&x == a.begin() + pos, "array-insert", "insert returned another position");
                } else if (c > 0 || pos < n)
                    a.insert(pos, c);
                m.insert(m.begin() + pos, c, 0);
                for (u32 i = 0; i < c; i++) {
                    VF_CHECK(Ops<T>::eq(a[pos + i], 0), "array-insert", "inserted item is not default constructed");
                    if (r.chance(1, 2)) {
                        m[pos + i] = nextVal;
                        a[pos + i] = Ops<T>::make(nextVal++);
                    }
                }
                break;
            }
            case 5:
            case 6: {
                if (n == 0)
                    break;
                u32 p = r.below(n);
                u32 c = r.chance(1, 2) ? 1 : r.below(n - p + 1);
                log += vf::fmt(" erase%d(%u,%u)", k, p, c);
                a.erase(p, c);
                m.erase(m.begin() + p, m.begin() + p + c);
                break;
            }
            case 7: {
                if (n == 0)
                    break;
                u32 p = r.below(n);
                log += vf::fmt(" eraseQuick%d(%u)", k, p);
                a.eraseQuick(p);
                m[p] = m.back();
                m.pop_back();
                break;
            }
            case 8: {
                // the order of what moves into the gap is not promised: multiset + untouched prefix
                if (n == 0)
                    break;
                u32 p = r.below(n);
                u32 c = r.below(n - p + 1);
                log += vf::fmt(" eraseQuick%d(%u,%u)", k, p, c);
                a.eraseQuick(p, c);
                std::vector<int32_t> want = m;
                want.erase(want.begin() + p, want.begin() + p + c);
                VF_CHECK(a.numItems() == want.size(), "array-erasequick", "wrong size after %s", log.c_str());
                // The last items fill the gap; everything else stays where it was.
                u32 moved = std::min(c, n - (p + c));
                std::vector<bool> used(want.size(), false);
                std::vector<int32_t> now;
                for (u32 i = 0; i < want.size(); i++) {
                    int found = -1;
                    for (u32 q = 0; q < want.size(); q++)
                        if (!used[q] && Ops<T>::eq(a[i], want[q])) {
                            found = (int) q;
                            break;
                        }
                    VF_CHECK(found >= 0, "array-erasequick", "item %u is not one of the survivors after %s", i,
                             log.c_str());
                    used[found] = true;
                    now.push_back(want[found]);
                    VF_CHECK((i >= p && i < p + moved) || Ops<T>::eq(a[i], m[i]), "array-erasequick",
                             "item %u outside the gap changed after %s", i, log.c_str());
                }
                m = now;
                break;
            }
            case 9: {
                u32 c = r.size(60);
                if (skipDefaults && c > n)
                    c = n;
                log += vf::fmt(" resize%d(%u)", k, c);
                a.resize(c);
                m.resize(c, 0);
                break;
            }
            case 10: {
                u32 c = n + r.size(100);
                log += vf::fmt(" reserve%d(%u)", k, c);
                a.reserve(c);
                VF_CHECK(a.numItems() == n, "array-reserve", "reserve changed the size");
                // capacity is a promise: no reallocation until it is used up
                if (r.chance(1, 2)) {
                    const T* b = a.begin();
                    while (a.numItems() < c && r.chance(15, 16)) {
                        int32_t v = nextVal++;
                        a.append(Ops<T>::make(v));
                        m.push_back(v);
                    }
                    VF_CHECK(a.begin() == b, "array-reserve", "reallocated below the reserved capacity");
                }
                break;
            }
            case 11:
                log += vf::fmt(" truncate%d", k);
                a.truncate();
                break;
            case 12: {
                u32 c = r.below(n + 1);
                log += vf::fmt(" pop%d(%u)", k, c);
                if (c == 1)
                    a.pop();
                else
                    a.pop(c);
                m.resize(n - c);
                break;
            }
            case 13:
                if (r.chance(1, 3)) {
                    log += vf::fmt(" clear%d", k);
                    a.clear();
                    m.clear();
                }
                break;
            case 14: {
                log += vf::fmt(" copy%d=%d", k, j);
                a = (const Array<T>&) arr[j];
                m = mod[j];
                VF_CHECK(m.empty() || a.begin() != arr[j].begin(), "array-copy", "copy shares storage");
                break;
            }
            case 15: {
                log += vf::fmt(" move%d=%d", k, j);
                const T* b = arr[j].begin();
                a = std::move(arr[j]);
                m = mod[j];
                mod[j].clear();
                VF_CHECK(a.begin() == b, "array-move", "move assignment did not transfer the storage");
                break;
            }
            case 16: {
                log += vf::fmt(" cctor%d", k);
                Array<T> c{(const Array<T>&) a};
                if (!same(c, m, "copy"))
                    return;
                Array<T> d{std::move(c)};
                if (!same(d, m, "moved"))
                    return;
                VF_CHECK(c.isEmpty(), "array-move", "moved-from array is not empty");
                VF_CHECK(d == a, "array-eq", "copies compare unequal");
                if (m.size() > 0) {
                    d[r.below(n)] = Ops<T>::make(nextVal++ & 0x7f ? nextVal * 2 + 1 : 3);
                    bool eq = true;
                    for (u32 i = 0; i < n; i++)
                        eq = eq && d[i] == a[i];
                    VF_CHECK((d == a) == eq, "array-eq", "equality is not item-wise");
                    d.pop();
                    VF_CHECK(!(d == a), "array-eq", "arrays of different sizes compare equal");
                }
                break;
            }
            case 17: {
                log += vf::fmt(" cat%d+%d", k, j);
                Array<T> c = (const Array<T>&) a + (const Array<T>&) arr[j];
                std::vector<int32_t> mc = m;
                mc.insert(mc.end(), mod[j].begin(), mod[j].end());
                if (!same(c, mc, "concatenation"))
                    return;
                if (r.chance(1, 2)) {
                    a = std::move(c);
                    m = mc;
                }
                break;
            }
            case 18: {
                u32 len = r.below(n - pos + 1);
                log += vf::fmt(" subView%d(%u,%u)", k, pos, len);
                ArrayView<T> v = a.subView(pos, len);
                if (!same(v, std::vector<int32_t>(m.begin() + pos, m.begin() + pos + len), "subView"))
                    return;
                ArrayView<T> w = a.subView(pos);
                if (!same(w, std::vector<int32_t>(m.begin() + pos, m.end()), "subView"))
                    return;
                u32 s = r.below(len + 1);
                if (!same(v.shortenedBy(s), std::vector<int32_t>(m.begin() + pos, m.begin() + pos + len - s),
                          "shortenedBy"))
                    return;
                v.offsetHead(s);
                if (!same(v, std::vector<int32_t>(m.begin() + pos + s, m.begin() + pos + len), "offsetHead"))
                    return;
                u32 t = r.below(v.numItems + 1);
                v.offsetBack(-(s32) t);
                if (!same(v, std::vector<int32_t>(m.begin() + pos + s, m.begin() + pos + len - t), "offsetBack"))
                    return;
                VF_CHECK(v.isEmpty() == (v.numItems == 0) && v.sizeBytes() == v.numItems * sizeof(T), "view-size",
                         "view size accessors disagree");
                for (u32 i = 0; i < v.numItems; i++)
                    VF_CHECK(&v.back(-1 - (s32) i) == v.items + (v.numItems - 1 - i), "view-back", "view back()");
                break;
            }
            case 19: {
                log += vf::fmt(" init%d", k);
                int32_t v = nextVal;
                nextVal += 3;
                switch (r.below(3)) {
                    case 0:
                        a = {Ops<T>::make(v), Ops<T>::make(v + 1), Ops<T>::make(v + 2)};
                        m = {v, v + 1, v + 2};
                        break;
                    case 1:
                        a = Array<T>{Ops<T>::make(v), Ops<T>::make(v + 1)};
                        m = {v, v + 1};
                        break;
                    case 2:
                        a.extend({Ops<T>::make(v), Ops<T>::make(v + 1), Ops<T>::make(v + 2)});
                        m.insert(m.end(), {v, v + 1, v + 2});
                        break;
                }
                break;
            }
            case 20: {
                log += vf::fmt(" fromView%d=%d", k, j);
                u32 p = r.below((u32) mod[j].size() + 1);
                a = arr[j].subView(p);
                m.assign(mod[j].begin() + p, mod[j].end());
                break;
            }
            case 21: {
                // assignment from a view into the array itself must see the old items
                log += vf::fmt(" selfView%d(%u)", k, pos);
                a = a.subView(pos);
                m = std::vector<int32_t>(m.begin() + pos, m.end());
                break;
            }
            case 22: {
                log += vf::fmt(" fixed%d", k);
                int32_t v = nextVal;
                nextVal += 4;
                FixedArray<T, 4> f{Ops<T>::make(v), Ops<T>::make(v + 1), Ops<T>::make(v + 2), Ops<T>::make(v + 3)};
                VF_CHECK(f.numItems() == 4 && f.end() - f.begin() == 4, "fixed", "FixedArray size");
                std::vector<int32_t> mf{v, v + 1, v + 2, v + 3};
                if (!same(f.view(), mf, "FixedArray"))
                    return;
                a.extend(f.view());
                m.insert(m.end(), mf.begin(), mf.end());
                break;
            }
            case 23: {
                log += vf::fmt(" release%d", k);
                u32 cnt = a.numItems();
                T* p = a.release();
                VF_CHECK(a.isEmpty(), "array-release", "array not empty after release");
                a = Array<T>::adopt(p, cnt);
                break;
            }
            case 24: {
                log += vf::fmt(" selfcopy%d", k);
                a = (const Array<T>&) a;
                break;
            }
            case 25: {
                if (n == 0)
                    break;
                u32 p = r.below(n);
                int32_t v = nextVal++;
                log += vf::fmt(" set%d", k);
                a[p] = Ops<T>::make(v);
                m[p] = v;
                break;
            }
        }
    }
    void run(vf::Rng& r, u32 steps) {
        size_t bytes = vf::liveBytes();
        (void) bytes;
        for (u32 s = 0; s < steps && !vf::failed(); s++) {
            if (log.size() > 3000)
                log = "..." + log.substr(log.size() - 1500);
            vf::ctx(log);
            step(r);
            if (vf::failed() || !verify())
                return;
            vf::evals(1);
            u64 h = std::is_same<T, Tracked>::value;
            for (int k = 0; k < K; k++)
                h = h * 1009 + mod[k].size();
            vf::distinct(h);
        }
        vf::sample(log);
    }
};

template <typename T>
static void runCase(vf::Rng& r, bool skipDefaults) {
    nextVal = 1;
    Tracked::errors() = 0;
    u32 steps = 30 + r.below(120);
    int64_t live0 = Tracked::live();
    size_t before;
    {
        Driver<T> d;
        d.skipDefaults = skipDefaults;
        before = 0;
        d.run(r, steps);
    }
    if (!vf::failed()) {
        VF_CHECK(Tracked::live() == live0, "array-lifetime", "%lld items leaked or destroyed twice",
                 (long long) (Tracked::live() - live0));
        VF_CHECK(Tracked::errors() == 0, "array-lifetime", "an item was used while dead");
    }
}
VF_WORKLOAD(tracked, 3000, 60000) {
    runCase<Tracked>(r, false);
}
VF_WORKLOAD(plain, 800, 20000) {
    if (idx & 1)
        runCase<u8>(r, true);
    else
        runCase<u32>(r, true);
}
VF_WORKLOAD(strings, 1200, 20000) {
    runCase<String>(r, false);
}
// Whole-lifetime memory balance: nothing an array allocated outlives it.
VF_WORKLOAD(balance, 400, 4000) {
    vf::ctx("balance");
    size_t b0 = vf::liveBytes();
    int64_t l0 = Tracked::live();
    u64 shape;
    {
        Array<Tracked> a;
        Array<Array<Tracked>> nested;
        u32 n = r.below(60);
        for (u32 i = 0; i < n; i++) {
            switch (r.below(7)) {
                case 0:
                    a.append((s32) i);
                    break;
                case 1:
                    nested.append(a);
                    break;
                case 2:
                    nested.append(std::move(a));
                    break;
                case 3:
                    if (nested.numItems())
                        nested.erase(r.below(nested.numItems()));
                    break;
                case 4:
                    if (nested.numItems())
                        a = std::move(nested.back());
                    break;
                case 5:
                    nested.resize(r.below(8));
                    break;
                case 6:
                    if (nested.numItems() && r.chance(1, 2))
                        nested.insert(r.below(nested.numItems() + 1)).resize(r.below(5));
                    else
                        a.resize(r.below(20));
                    break;
            }
        }
        int64_t held = a.numItems();
        for (const Array<Tracked>& x : nested)
            held += x.numItems();
        VF_CHECK(Tracked::live() - l0 == held, "array-lifetime", "nested: %lld live, %lld held",
                 (long long) (Tracked::live() - l0), (long long) held);
        shape = vf::mix(held * 131 + nested.numItems());
    }
    size_t b1 = vf::liveBytes();
    vf::distinct(shape);
    VF_CHECK(Tracked::live() == l0 && b1 == b0, "array-leak", "%lld items and %zd bytes outlive their arrays",
             (long long) (Tracked::live() - l0), (ssize_t) (b1 - b0));
}
VF_MAIN()
