// Hash128 against SpookyHash V2 written down anew, over every way of splitting and placing the bytes; Hasher; signatures.
#include "plyvf.h"
#include <ply-runtime/container/Hash128.h>
#include <ply-runtime/container/Hash.h>
#include <ply-runtime/string/String.h>

#include <set>
using namespace ply;
namespace ply {
namespace build {
u128 parseSignatureString(StringView str);
String signatureToString(u128 sig);
} // namespace build
} // namespace ply

// SpookyHash V2, from its published definition
namespace ref {
static u64 rot(u64 x, u32 k) {
    return (x << k) | (x >> (64 - k));
}
static u64 le(const u8* p, u32 n) {
    u64 v = 0;
    for (u32 i = 0; i < n; i++)
        v |= (u64) p[i] << (8 * i);
    return v;
}
static const u64 C = 0xdeadbeefdeadbeefull;
static void shortHash(const u8* p, size_t len, u64& h1, u64& h2) {
    u64 h[4] = {h1, h2, C, C};
    auto mix = [&] {
        static const u8 k[12] = {50, 52, 30, 41, 54, 48, 38, 37, 62, 34, 5, 36};
        for (u32 i = 0; i < 12; i++) {
            u32 t = (i + 2) & 3, n = (t + 1) & 3, o = (t + 2) & 3;
            h[t] = rot(h[t], k[i]);
            h[t] += h[n];
            h[o] ^= h[t];
        }
    };
    size_t rest = len % 32;
    if (len > 15) {
        for (size_t i = 0; i < len / 32; i++, p += 32) {
            h[2] += le(p, 8);
            h[3] += le(p + 8, 8);
            mix();
            h[0] += le(p + 16, 8);
            h[1] += le(p + 24, 8);
        }
        if (rest >= 16) {
            h[2] += le(p, 8);
            h[3] += le(p + 8, 8);
            mix();
            p += 16;
            rest -= 16;
        }
    }
    h[3] += (u64) len << 56;
    if (rest == 0) {
        h[2] += C;
        h[3] += C;
    } else {
        h[2] += le(p, rest < 8 ? (u32) rest : 8);
        if (rest > 8)
            h[3] += le(p + 8, (u32) rest - 8);
    }
    static const u8 e[11] = {15, 52, 26, 51, 28, 9, 47, 54, 32, 25, 63};
    for (u32 i = 0; i < 11; i++) {
        u32 t = (i + 3) & 3, s = (i + 2) & 3;
        h[t] ^= h[s];
        h[s] = rot(h[s], e[i]);
        h[t] += h[s];
    }
    h1 = h[0];
    h2 = h[1];
}
static void hash(const u8* p, size_t len, u64& h1, u64& h2) {
    if (len < 192) {
        shortHash(p, len, h1, h2);
        return;
    }
    u64 s[12];
    for (u32 i = 0; i < 12; i++)
        s[i] = i % 3 == 0 ? h1 : i % 3 == 1 ? h2 : C;
    static const u8 k[12] = {11, 32, 43, 31, 17, 28, 39, 57, 55, 54, 22, 46};
    for (size_t b = 0; b < len / 96; b++, p += 96)
        for (u32 i = 0; i < 12; i++) {
            s[i] += le(p + 8 * i, 8);
            s[(i + 2) % 12] ^= s[(i + 10) % 12];
            s[(i + 11) % 12] ^= s[i];
            s[i] = rot(s[i], k[i]);
            s[(i + 11) % 12] += s[(i + 1) % 12];
        }
    u8 last[96] = {};
    size_t rest = len % 96;
    memcpy(last, p, rest);
    last[95] = (u8) rest;
    for (u32 i = 0; i < 12; i++)
        s[i] += le(last + 8 * i, 8);
    static const u8 e[12] = {44, 15, 34, 21, 38, 33, 10, 13, 38, 53, 42, 54};
    for (u32 round = 0; round < 3; round++)
        for (u32 i = 0; i < 12; i++) {
            s[(i + 11) % 12] += s[(i + 1) % 12];
            s[(i + 2) % 12] ^= s[(i + 11) % 12];
            s[(i + 1) % 12] = rot(s[(i + 1) % 12], e[i]);
        }
    h1 = s[0];
    h2 = s[1];
}
} // namespace ref

static vf::Str hex(u128 v) {
    return vf::fmt("%016llx%016llx", (unsigned long long) v.hi, (unsigned long long) v.lo);
}
static u128 expected(const vf::Str& s) {
    u64 a = 0, b = 0;
    ref::hash((const u8*) s.data(), s.size(), a, b);
    u128 v;
    v.hi = a;
    v.lo = b;
    return v;
}
static vf::Str bytes(vf::Rng& r, u32 n) {
    vf::Str s(n, 0);
    u32 kind = r.below(5);
    for (u32 i = 0; i < n; i++)
        s[i] = kind == 0 ? 0 : kind == 1 ? (char) 0xff : kind == 2 ? (char) (i + 128) : (char) r.u32();
    return s;
}
static u32 length(vf::Rng& r) {
    switch (r.below(7)) {
        case 0: return r.below(40);
        case 1: return 96 * r.below(12) + r.below(3);
        case 2: return 96 * (1 + r.below(12)) - 1 - r.below(2);
        case 3: return 192 + r.below(4) - 2;
        case 4: return r.below(600);
        case 5: return r.chance(1, 6) ? 65536 * (1 + r.below(2)) + r.below(200) : r.size(2000);
        default: return r.size(vf::thorough() ? 200000 : 20000);
    }
}

// Published test vectors: the low half of the hash of i bytes counting up from 128
static const u32 published[] = {0x6bf50919,0x70de1d26,0xa2b37298,0x35bc5fbf,0x8223b279,0x5bcb315e,0x53fe88a1,0xf9f1a233,0xee193982,0x54f86f29,0xc8772d36,0x9ed60886,0x5f23d1da,0x1ed9f474};

VF_WORKLOAD(reference, 8, 40) {
    vf::Str buf;
    for (u32 i = 0; i < sizeof(published) / sizeof(published[0]); i++) {
        vf::Exact e{buf};
        VF_CHECK(SpookyHash::Hash32(e.p, i, 0) == published[i], "hash-published", "the hash of %u bytes is %08x, published %08x", i,
                 SpookyHash::Hash32(e.p, i, 0), published[i]);
        u64 a = 0, b = 0;
        ref::hash((const u8*) e.p, i, a, b);
        VF_CHECK((u32) a == published[i], "oracle", "the reference is wrong for %u bytes", i);
        buf += (char) (i + 128);
    }
    // Every length up to several blocks, with other seeds
    for (u32 n = 0; n < 700; n++) {
        vf::Str s = bytes(r, n);
        u64 s1 = r.chance(1, 3) ? 0 : r.u64(), s2 = r.chance(1, 3) ? s1 : r.u64();
        vf::Exact e{s};
        u64 a = s1, b = s2, c = s1, d = s2;
        SpookyHash::Hash128(e.p, n, &a, &b);
        ref::hash((const u8*) s.data(), n, c, d);
        VF_CHECK(a == c && b == d, "hash-reference", "%u bytes: %016llx %016llx, expected %016llx %016llx", n, (unsigned long long) a,
                 (unsigned long long) b, (unsigned long long) c, (unsigned long long) d);
        u64 x = s1, y = s1;
        ref::hash((const u8*) s.data(), n, x, y);
        VF_CHECK(SpookyHash::Hash64(e.p, n, s1) == x, "hash-reference", "64 bits of %u bytes", n);
        VF_CHECK(Hash128::compute(e.view()) == expected(s), "hash-reference", "Hash128 of %u bytes is %s, expected %s", n,
                 hex(Hash128::compute(e.view())).c_str(), hex(expected(s)).c_str());
        vf::evals(3);
    }
    vf::distinct(vf::mix(r.u64()));
}

VF_WORKLOAD(chunks, 400, 4000) {
    vf::Str s = bytes(r, length(r));
    u128 want = expected(s);
    for (u32 rep = 0; rep < 6; rep++) {
        Hash128 h;
        u32 pos = 0, n = 0, reads = 0;
        u32 style = r.below(8);
        vf::Str log;
        while (pos < s.size() || (style == 0 && r.chance(1, 2))) {
            u32 len = style == 1 ? 1 : style == 2 ? 96 : style == 3 ? 191 + r.below(3) : style == 4 ? r.below(30) : style < 7 ? r.size(400) : r.chance(1, 3) ? 65536 : r.size(1 << 17);
            if (s.size() > 5000 && (style == 1 || style == 4))
                len = 1 + r.below(500);
            len = std::min<u32>(len, (u32) s.size() - pos);
            // each piece in a block of its own, at any alignment
            u32 off = r.below(8);
            vf::Exact e{vf::Str(off, 'x') + s.substr(pos, len)};
            h.append(StringView{e.p + off, len});
            pos += len;
            n++;
            if (log.size() < 200)
                log += vf::fmt(" %u", len);
            if (r.chance(1, 10) && reads < 8) {
                u128 sofar = h.get();
                VF_CHECK(sofar == expected(s.substr(0, pos)), "hash-chunks", "after%s: %s, expected %s", log.c_str(), hex(sofar).c_str(),
                         hex(expected(s.substr(0, pos))).c_str());
                reads++;
                if (r.chance(1, 4)) {
                    Hash128 copy = h;
                    copy.append("tail");
                    VF_CHECK(copy.get() == expected(s.substr(0, pos) + "tail"), "hash-copy", "a copy after%s", log.c_str());
                }
            }
            if (n > 3000)
                break;
        }
        if (pos < s.size())
            h.append(StringView{s.data() + pos, (u32) s.size() - pos});
        u128 got = h.get();
        VF_CHECK(got == want, "hash-chunks", "%zu bytes as%s: %s, expected %s", s.size(), log.c_str(), hex(got).c_str(), hex(want).c_str());
        VF_CHECK(h.get() == want, "hash-chunks", "reading it twice changed it");
        vf::count("pieces", n);
        vf::distinct(vf::mix(vf::hashStr(log) + s.size()));
        vf::evals(1);
    }
    // A change of any bit changes both halves
    if (!s.empty()) {
        vf::Str t = s;
        u32 i = r.below((u32) t.size());
        t[i] ^= 1 << r.below(8);
        u128 v = Hash128::compute(vf::view(t));
        VF_CHECK(v.lo != want.lo && v.hi != want.hi, "hash-spread", "a bit of byte %u makes no difference", i);
    }
}

VF_WORKLOAD(hasher, 200, 2000) {
    std::set<u32> seen;
    u32 n = 0, clash = 0;
    for (u32 rep = 0; rep < 200; rep++) {
        vf::Str s = r.chance(1, 2) ? vf::randBytes(r, 40) : vf::fmt("item%u", r.below(100000));
        u32 off = r.below(8);
        vf::Exact e1{vf::Str(off, 'q') + s}, e2{s};
        StringView v1{e1.p + off, (u32) s.size()}, v2 = e2.view();
        u32 h1 = Hasher::hash(v1), h2 = Hasher::hash(v2), h3 = Hasher::hash(String{v2}.view());
        VF_CHECK(h1 == h2 && h2 == h3, "hasher-equal", "equal strings %s hash to %08x, %08x and %08x", vf::esc(s).c_str(), h1, h2, h3);
        Hasher a, b;
        float f = r.chance(1, 4) ? 0.f : (float) r.range(-1000, 1000) / 8;
        u64 u = r.u64();
        a << v1 << (u32) u << f << u;
        b << v2 << (u32) u << f << u;
        VF_CHECK(a.result() == b.result(), "hasher-equal", "equal sequences hash differently");
        Hasher c, d;
        c << 0.f;
        d << -0.f;
        VF_CHECK(c.result() == d.result(), "hasher-equal", "0 == -0, but their hashes differ");
        // Differing in one byte or one bit
        if (!s.empty()) {
            vf::Str t = s;
            t[r.below((u32) t.size())] ^= 1 << r.below(8);
            n++;
            clash += Hasher::hash(vf::view(t)) == h1;
        }
        u64 x = r.u64() >> r.below(64), y = x ^ (1ull << r.below(64));
        n += 2;
        clash += Hasher::hash(x) == Hasher::hash(y);
        u32 z = (u32) x;
        clash += Hasher::hash(z) == Hasher::hash(z ^ (1u << r.below(32)));
        VF_CHECK(Hasher::hash((s64) x) == Hasher::hash(x) && Hasher::hash((s32) z) == Hasher::hash(z), "hasher-equal",
                 "signed and unsigned %llx", (unsigned long long) x);
        const vf::Str* p = &s;
        Hasher g, k;
        g << p;
        k << p;
        VF_CHECK(g.result() == k.result(), "hasher-equal", "a pointer");
        VF_CHECK(avalanche(deavalanche(z)) == z && deavalanche(avalanche(z)) == z, "avalanche", "%08x isn't restored", z);
        vf::evals(4);
        vf::distinct(vf::hashStr(s));
    }
    VF_CHECK(clash <= 2, "hasher-spread", "%u of %u pairs of keys that differ in a bit have the same hash", clash, n);
    // Consecutive numbers and names are spread over the buckets of a table
    u32 base = r.u32();
    u32 buckets[64] = {}, names[64] = {};
    for (u32 i = 0; i < 2048; i++) {
        buckets[Hasher::hash((u32)(base + i)) & 63]++;
        names[Hasher::hash(vf::view(vf::fmt("name%u", base + i))) & 63]++;
    }
    for (u32 i = 0; i < 64; i++)
        VF_CHECK(buckets[i] > 0 && buckets[i] < 100 && names[i] > 0 && names[i] < 100, "hasher-spread",
                 "bucket %u of 64 holds %u of 2048 numbers, %u of 2048 names", i, buckets[i], names[i]);
}

VF_WORKLOAD(numbers, 100, 1000) {
    for (u32 rep = 0; rep < 100; rep++) {
        auto pick = [&]() -> u64 { return r.chance(1, 4) ? ~0ull - r.below(2) : r.chance(1, 4) ? r.below(3) : r.u64() >> r.below(64); };
        u128 a, b;
        a.lo = pick();
        a.hi = pick();
        b.lo = pick();
        b.hi = pick();
        unsigned __int128 x = ((unsigned __int128) a.hi << 64) | a.lo, y = ((unsigned __int128) b.hi << 64) | b.lo;
        VF_CHECK((a == b) == (x == y) && (a != b) == (x != y) && a == u128{a} && !(a != u128{a}), "u128-equal", "%s and %s", hex(a).c_str(),
                 hex(b).c_str());
        u128 c = a;
        c += b;
        x += y;
        VF_CHECK(c.hi == (u64)(x >> 64) && c.lo == (u64) x, "u128-add", "%s + %s is %s", hex(a).c_str(), hex(b).c_str(), hex(c).c_str());
        c = b;
        c += c;
        y += y;
        VF_CHECK(c.hi == (u64)(y >> 64) && c.lo == (u64) y, "u128-add", "%s doubled is %s", hex(b).c_str(), hex(c).c_str());
        u128 zero = u128::zero();
        VF_CHECK(zero.lo == 0 && zero.hi == 0 && u128{7}.lo == 7 && u128{7}.hi == 0, "u128-zero", "%s", hex(zero).c_str());
        // Signatures as text
        String s = build::signatureToString(a);
        vf::Str t = vf::str(s);
        VF_CHECK(t == hex(a), "signature-text", "%s is printed as %s", hex(a).c_str(), vf::esc(t).c_str());
        u128 back = build::parseSignatureString(s);
        VF_CHECK(back == a, "signature-text", "%s reads back as %s", t.c_str(), hex(back).c_str());
        vf::Str bad = r.chance(1, 2) ? t.substr(0, r.below(32)) : t + "0";
        VF_CHECK(build::parseSignatureString(vf::view(bad)) == u128::zero(), "signature-text", "%s is taken for a signature", bad.c_str());
        vf::evals(1);
        vf::distinct(vf::mix(a.lo ^ a.hi));
    }
}

VF_MAIN()
