// Sort, find, filter, map, reduce, range and Random against what they are defined to compute.
#include "plyvf.h"
#include "threadvf.h"
#include <ply-runtime/algorithm/Sort.h>
#include <ply-runtime/algorithm/Find.h>
#include <ply-runtime/algorithm/Filter.h>
#include <ply-runtime/algorithm/Map.h>
#include <ply-runtime/algorithm/Sum.h>
#include <ply-runtime/algorithm/Range.h>
#include <ply-runtime/algorithm/Random.h>
#include <ply-runtime/container/FixedArray.h>
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace ply;

// Keys in patterns that are hard on a pivot
static std::vector<s32> keys(vf::Rng& r, u32 n) {
    std::vector<s32> v(n);
    u32 kind = r.below(14);
    s32 base = r.chance(1, 8) ? INT32_MIN : r.chance(1, 8) ? INT32_MAX - (s32) n : 0;
    for (u32 i = 0; i < n; i++) {
        switch (kind) {
            case 0: v[i] = (s32) r.u32(); break;
            case 1: v[i] = base + (s32) i; break;
            case 2: v[i] = base + (s32)(n - i); break;
            case 3: v[i] = 7; break;
            case 4: v[i] = r.below(2); break;
            case 5: v[i] = r.below(3); break;
            case 6: v[i] = i < n / 2 ? i : n - i; break;
            case 7: v[i] = i < n / 2 ? n - i : i; break;
            case 8: v[i] = r.below(n / 4 + 1); break;
            case 9: v[i] = i == n / 2 ? -1 : 5; break;      // least in the middle
            case 10: v[i] = i == n / 2 ? 1000000 : 5; break; // greatest in the middle
            case 11: v[i] = i % 2 ? i : -(s32) i; break;
            case 12: v[i] = base + (s32) i + (r.chance(1, 10) ? r.below(20) : 0); break;
            default: v[i] = i % (1 + r.below(5)); break;
        }
    }
    if (kind == 1 && n && r.chance(1, 2))
        std::swap(v[r.below(n)], v[r.below(n)]);
    return v;
}
static u32 sizeFor(vf::Rng& r) {
    return r.chance(1, 4) ? r.below(8) : r.chance(1, 10) ? r.below(vf::thorough() ? 20000 : 3000) : r.size(400);
}

static vf::Str showKeys(const std::vector<s32>& v) {
    vf::Str s = vf::fmt("%zu:", v.size());
    for (u32 i = 0; i < v.size() && i < 40; i++)
        s += vf::fmt(" %d", v[i]);
    return s;
}

struct Rec {
    s32 key;
    u32 id;
    vf::Tracked t;
    Rec(s32 key, u32 id) : key{key}, id{id}, t{(s32) id} {
    }
    bool operator<(const Rec& o) const {
        return key < o.key;
    }
};

VF_WORKLOAD(sortInts, 300, 3000) {
    auto in = keys(r, sizeFor(r));
    vf::ctx(showKeys(in));
    // The array lies in the middle of a heap block of its own, with guards that sorting must not touch
    u32 pad = r.below(3);
    std::vector<s32> block(in.size() + 2 * pad, 0x5a5a5a5a);
    std::copy(in.begin(), in.end(), block.begin() + pad);
    block.shrink_to_fit();
    ArrayView<s32> view{block.data() + pad, (u32) in.size()};
    u64 compares = 0;
    bool badRange = false;
    u32 order = r.below(4);
    auto less = [&](s32 a, s32 b) {
        return order == 1 ? a > b : order == 2 ? (a & 0xf) < (b & 0xf) : a < b;
    };
    if (order == 3)
        sort(view);
    else
        sort(view, [&](const s32& a, const s32& b) {
            compares++;
            badRange |= &a < view.items || &a >= view.items + view.numItems || &b < view.items || &b >= view.items + view.numItems;
            return less(a, b);
        });
    VF_CHECK(!badRange, "sort-range", "an item outside the range was compared");
    for (u32 i = 1; i < view.numItems; i++)
        VF_CHECK(!less(view[i], view[i - 1]), "sort-order", "item %u is %d, after %d", i, view[i], view[i - 1]);
    std::vector<s32> a = in, b(view.items, view.items + view.numItems);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    VF_CHECK(a == b, "sort-permutation", "the items changed: %s", showKeys(b).c_str());
    for (u32 i = 0; i < pad; i++)
        VF_CHECK(block[i] == 0x5a5a5a5a && block[block.size() - 1 - i] == 0x5a5a5a5a, "sort-range", "wrote outside the range");
    u64 n = in.size();
    VF_CHECK(compares <= 4 * n * n + 16, "sort-cost", "%llu comparisons for %llu items", (unsigned long long) compares,
             (unsigned long long) n);
    vf::maxOf("items", n);
    vf::evals(1);
    vf::distinct(vf::fnv(in.data(), in.size() * 4));
}

VF_WORKLOAD(sortRecords, 150, 1500) {
    auto in = keys(r, std::min<u32>(sizeFor(r), 1500));
    vf::ctx(showKeys(in));
    {
        Array<Rec> arr;
        Array<String> strs;
        for (u32 i = 0; i < in.size(); i++) {
            arr.append(Rec{in[i], i});
            strs.append(String::format("{}", in[i]));
        }
        if (r.chance(1, 2))
            sort(arr);
        else
            sort(arr, [](const Rec& a, const Rec& b) { return a.key < b.key; });
        VF_CHECK(arr.numItems() == in.size(), "sort-permutation", "%u items of %zu", arr.numItems(), in.size());
        std::set<u32> ids;
        for (u32 i = 0; i < arr.numItems(); i++) {
            VF_CHECK(i == 0 || !(arr[i].key < arr[i - 1].key), "sort-order", "item %u is %d, after %d", i, arr[i].key, arr[i - 1].key);
            VF_CHECK(arr[i].id < in.size() && in[arr[i].id] == arr[i].key && ids.insert(arr[i].id).second && arr[i].t.ok() &&
                         arr[i].t.value == (s32) arr[i].id,
                     "sort-permutation", "item %u: key %d id %u", i, arr[i].key, arr[i].id);
        }
        sort(strs, [](const String& a, const String& b) { return a < b; });
        std::vector<vf::Str> want;
        for (s32 k : in)
            want.push_back(vf::fmt("%d", k));
        std::sort(want.begin(), want.end());
        for (u32 i = 0; i < strs.numItems(); i++)
            VF_CHECK(vf::str(strs[i]) == want[i], "sort-order", "string %u is %s, expected %s", i, vf::str(strs[i]).c_str(),
                     want[i].c_str());
    }
    VF_CHECK(vf::Tracked::live() == 0 && vf::Tracked::errors() == 0, "sort-lifetime", "%lld items live, %lld misused",
             (long long) vf::Tracked::live(), (long long) vf::Tracked::errors());
    vf::evals(1);
    vf::distinct(vf::fnv(in.data(), in.size() * 4));
}

struct EqOnly {
    s32 v;
    bool operator==(s32 o) const {
        return v == o;
    }
};

VF_WORKLOAD(search, 300, 3000) {
    for (u32 rep = 0; rep < 10; rep++) {
        u32 n = r.chance(1, 5) ? 0 : r.size(60);
        std::vector<s32> in(n);
        u32 span = 1 + r.below(20);
        for (auto& k : in)
            k = r.below(span);
        vf::ctx(showKeys(in));
        Array<s32> arr;
        Array<String> strs;
        Array<EqOnly> eqs;
        for (s32 k : in) {
            arr.append(k);
            strs.append(String::format("k{}", k));
            eqs.append(EqOnly{k});
        }
        for (s32 want = -1; want <= (s32) span; want++) {
            s32 first = -1, last = -1;
            for (s32 i = 0; i < (s32) n; i++)
                if (in[i] == want) {
                    if (first < 0)
                        first = i;
                    last = i;
                }
            VF_CHECK(find(arr, want) == first, "find", "find %d is %d, expected %d", want, find(arr, want), first);
            VF_CHECK(rfind(arr, want) == last, "rfind", "rfind %d is %d, expected %d", want, rfind(arr, want), last);
            VF_CHECK(find(arr.view(), want) == first && rfind(arr.view(), want) == last, "find", "in a view: %d", want);
            VF_CHECK(find(eqs, want) == first && rfind(eqs, want) == last, "find", "by comparison with another type: %d", want);
            String w = String::format("k{}", want);
            VF_CHECK(find(strs, w) == first && rfind(strs, w.view()) == last, "find", "string %s", vf::str(w).c_str());
            // A callback is asked in order, up to the first match
            std::vector<const s32*> asked;
            s32 got = find(arr, [&](const s32& v) {
                asked.push_back(&v);
                return v == want;
            });
            VF_CHECK(got == first && asked.size() == (first < 0 ? n : (u32) first + 1), "find", "callback for %d: %d after %zu", want,
                     got, asked.size());
            for (u32 i = 0; i < asked.size(); i++)
                VF_CHECK(asked[i] == &arr[i], "find-order", "callback %u", i);
            asked.clear();
            got = rfind(arr, [&](const s32& v) {
                asked.push_back(&v);
                return v == want;
            });
            VF_CHECK(got == last && asked.size() == (last < 0 ? n : n - (u32) last), "rfind", "callback for %d: %d after %zu", want, got,
                     asked.size());
            for (u32 i = 0; i < asked.size(); i++)
                VF_CHECK(asked[i] == &arr[n - 1 - i], "find-order", "rfind callback %u", i);
        }
        FixedArray<s32, 3> fx;
        fx[0] = 3;
        fx[1] = 1;
        fx[2] = 3;
        VF_CHECK(find(fx, 3) == 0 && rfind(fx, 3) == 2 && find(fx, 1) == 1 && rfind(fx, 4) == -1, "find", "in a fixed array");
        vf::evals(span + 2);
        vf::distinct(vf::fnv(in.data(), in.size() * 4));
    }
}

VF_WORKLOAD(filters, 300, 3000) {
    u32 n = r.chance(1, 6) ? r.below(3) : r.size(200);
    std::vector<s32> in(n);
    for (auto& k : in)
        k = r.below(1 + r.below(50));
    vf::ctx(showKeys(in));
    u32 mask = r.chance(1, 6) ? 0 : r.chance(1, 6) ? ~0u : r.u32();
    auto keep = [&](u32 id) { return (vf::mix(id ^ mask) & 1) ? mask != 0 : mask == ~0u; };
    {
        Array<Rec> arr;
        for (u32 i = 0; i < n; i++)
            arr.append(Rec{in[i], i});
        std::map<u32, u32> seen;
        filter(arr, [&](const Rec& rec) {
            seen[rec.id]++;
            return keep(rec.id);
        });
        VF_CHECK(seen.size() == n, "filter-visits", "%zu of %u items were asked about", seen.size(), n);
        for (auto& s : seen)
            VF_CHECK(s.second == 1, "filter-visits", "item %u was asked about %u times", s.first, s.second);
        std::set<u32> kept;
        for (auto& rec : arr) {
            VF_CHECK(rec.t.ok() && rec.t.value == (s32) rec.id && rec.key == in[rec.id] && kept.insert(rec.id).second, "filter-items",
                     "item %u", rec.id);
        }
        for (u32 i = 0; i < n; i++)
            VF_CHECK((kept.count(i) > 0) == keep(i), "filter-items", "item %u of %u is %s", i, n, kept.count(i) ? "kept" : "gone");
        // map
        std::vector<u32> order;
        Array<s32> mapped = map(arr, [&](const Rec& rec) {
            order.push_back(rec.id);
            return rec.key * 3 + 1;
        });
        VF_CHECK(mapped.numItems() == arr.numItems() && order.size() == arr.numItems(), "map", "%u results, %zu calls for %u",
                 mapped.numItems(), order.size(), arr.numItems());
        for (u32 i = 0; i < arr.numItems(); i++)
            VF_CHECK(order[i] == arr[i].id && mapped[i] == arr[i].key * 3 + 1, "map", "item %u", i);
        Array<String> strs = map(mapped, [](s32 v) { return String::format("<{}>", v); });
        vf::Str joined;
        for (u32 i = 0; i < mapped.numItems(); i++) {
            VF_CHECK(vf::str(strs[i]) == vf::fmt("<%d>", mapped[i]), "map", "string %u", i);
            joined += vf::fmt("<%d>", mapped[i]);
        }
        // reduce visits in order: concatenation isn't commutative
        String red = reduce(strs, [](String a, const String& b) -> String { return a + b; }, String{"^"});
        VF_CHECK(vf::str(red) == "^" + joined, "reduce", "%s, expected ^%s", vf::str(red).c_str(), joined.c_str());
        s64 total = 0;
        for (u32 i = 0; i < mapped.numItems(); i++)
            total += mapped[i];
        VF_CHECK(sum(mapped) == (s32) total && sum(mapped.view()) == (s32) total, "sum", "%d, expected %lld", sum(mapped),
                 (long long) total);
        Array<double> ds = map(mapped, [](s32 v) { return v * 0.5; });
        VF_CHECK(sum(ds) == total * 0.5, "sum", "%g, expected %g", sum(ds), total * 0.5);
    }
    VF_CHECK(vf::Tracked::live() == 0 && vf::Tracked::errors() == 0, "filter-lifetime", "%lld items live, %lld misused",
             (long long) vf::Tracked::live(), (long long) vf::Tracked::errors());
    // range
    u32 a = r.chance(1, 4) ? 0xffffffffu - r.below(100) : r.below(1000);
    u32 len = r.chance(1, 4) ? 0 : r.below(99);
    u32 b = a > 0xffffffffu - len ? 0xffffffffu : a + len;
    if (r.chance(1, 8))
        b = a > 5 ? a - 5 : 0;
    u32 want = a, calls = 0;
    for (u32 i : range(a, b)) {
        VF_CHECK(i == want && calls < 200, "range", "%u, expected %u in [%u, %u)", i, want, a, b);
        want++;
        calls++;
    }
    VF_CHECK(calls == (b > a ? b - a : 0), "range", "%u steps in [%u, %u)", calls, a, b);
    Array<u32> sq = map(range(len), [](u32 i) { return i * i; });
    VF_CHECK(sq.numItems() == len, "range", "%u items for %u", sq.numItems(), len);
    for (u32 i = 0; i < len; i++)
        VF_CHECK(sq[i] == i * i, "range", "square %u", i);
    VF_CHECK(sum(range(len)) == (len ? len * (len - 1) / 2 : 0), "range", "sum of range(%u)", len);
    vf::evals(1);
    vf::distinct(vf::mix(vf::fnv(in.data(), in.size() * 4) + mask));
}

// xoroshiro128**: two outputs give the state back, and then every other output follows from the published recurrence
static u64 rotl(u64 x, u32 k) {
    return (x << k) | (x >> (64 - k));
}
static u64 inv(u64 a) { // of an odd number, modulo 2^64
    u64 x = a;
    for (u32 i = 0; i < 6; i++)
        x *= 2 - a * x;
    return x;
}
static u64 s0From(u64 out) {
    return rotl(out * inv(9), 57) * inv(5);
}
static u64 unshift16(u64 v) { // x from x ^ (x << 16)
    u64 x = v;
    for (u32 i = 0; i < 4; i++)
        x = v ^ (x << 16);
    return x;
}
template <class F>
static bool follows(F&& next, u32 n) {
    u64 o0 = next(), o1 = next();
    u64 a = s0From(o0), a2 = s0From(o1);
    u64 x = unshift16(a2 ^ rotl(a, 24)); // s0 ^ s1
    u64 b = x ^ a;
    VF_CHECKR(a || b, false, "random-recurrence", "the state is zero");
    for (u32 i = 0; i < n; i++) {
        // step from (a, b)
        u64 y = a ^ b;
        a = rotl(a, 24) ^ y ^ (y << 16);
        b = rotl(y, 37);
        if (i == 0)
            continue; // that state gave o1
        u64 want = rotl(a * 5, 7) * 9, got = next();
        VF_CHECKR(got == want, false, "random-recurrence", "output %u is %016llx, expected %016llx", i + 1, (unsigned long long) got,
                  (unsigned long long) want);
    }
    return true;
}

VF_WORKLOAD(random, 100, 1000) {
    u64 seed = r.chance(1, 4) ? r.below(10) : r.chance(1, 8) ? ~0ull - r.below(3) : r.u64();
    vf::ctx(vf::fmt("seed %llx", (unsigned long long) seed));
    {
        Random rnd{seed};
        if (!follows([&] { return rnd.next64(); }, 200))
            return;
    }
    if (seed + 1 != 0) {
        Random rnd;
        if (!follows([&] { return rnd.next64(); }, 50))
            return;
    }
    Random a{seed}, b{seed}, c{seed ^ (1ull << r.below(64))};
    Random d = a;
    u32 same = 0;
    u64 bits[64] = {};
    double total = 0;
    static const u32 N = 400;
    for (u32 i = 0; i < N; i++) {
        u64 v = a.next64();
        VF_CHECK(d.next64() == v, "random-seed", "a copy went its own way at step %u", i);
        if (c.next64() == v)
            same++;
        for (u32 k = 0; k < 64; k++)
            bits[k] += (v >> k) & 1;
        switch (r.below(5)) {
            case 0: VF_CHECK(b.next64() == v, "random-seed", "step %u isn't reproduced", i); break;
            case 1: VF_CHECK(b.next32() == (u32) v, "random-seed", "step %u isn't reproduced in 32 bits", i); break;
            case 2: VF_CHECK(b.next16() == (u16) v, "random-seed", "step %u isn't reproduced in 16 bits", i); break;
            case 3: VF_CHECK(b.next8() == (u8) v, "random-seed", "step %u isn't reproduced in 8 bits", i); break;
            default: {
                float f = b.nextFloat();
                VF_CHECK(f >= 0 && f <= 1 && std::abs(f - (u32) v / 4294967295.0) < 1e-6, "random-float", "%g from %08x", f, (u32) v);
                total += f;
            }
        }
    }
    VF_CHECK(same < 2, "random-seed", "seeds that differ in a bit give the same outputs");
    for (u32 k = 0; k < 64; k++)
        VF_CHECK(bits[k] > N / 4 && bits[k] < N * 3 / 4, "random-bits", "bit %u is set in %llu of %u outputs", k,
                 (unsigned long long) bits[k], N);
    // Generators without a seed differ, even when several threads make them at once
    std::vector<u64> firsts(6);
    {
        vf::Team t;
        for (u32 i = 0; i < 6; i++)
            t.add([&firsts, i] {
                Random x;
                firsts[i] = x.next64();
            });
        VF_CHECK(t.join(20) == 0, "random-hang", "threads are stuck");
    }
    VF_CHECK(std::set<u64>(firsts.begin(), firsts.end()).size() == 6, "random-unseeded", "two threads got the same sequence");
    vf::evals(N);
    vf::distinct(vf::mix(seed));
}

VF_MAIN()
