// String, StringView and HybridString against std::string.
#include "plyvf.h"
#include <ply-runtime/string/TextEncoding.h>
using namespace ply;
using vf::Exact;
using vf::Str;

static Str text(vf::Rng& r, u32 maxLen) {
    switch (r.below(4)) {
        case 0:
            return vf::randBytes(r, maxLen);
        case 1:
            return vf::randUtf8(r, maxLen);
        case 2:
            return vf::randOver(r, "ab", maxLen);
        default:
            return vf::randOver(r, " \t\r\nxX\0z", maxLen);
    }
}
static int sgn(int x) {
    return (x > 0) - (x < 0);
}
static int cmpRef(const Str& a, const Str& b) {
    size_t n = std::min(a.size(), b.size());
    int c = memcmp(a.data(), b.data(), n);
    return c ? sgn(c) : (a.size() > b.size()) - (a.size() < b.size());
}
static bool wh(char c) {
    return c == ' ' || c == '\t' || c == '\r' || c == '\n';
}
static bool isX(char c) {
    return c == 'x' || c == 'a' || (unsigned char) c >= 0x80;
}
static char rot(char c) {
    return (unsigned char) c >= 128 ? c : (char) ((c + 1) & 127);
}

// Every query, on a buffer of exactly the right size
template <typename S>
static void queries(vf::Rng& r, const S& s, const Str& m) {
    VF_CHECK(s.numBytes == m.size() && s.isEmpty() == m.empty() && (bool) s == !m.empty(), "str-size",
             "size/emptiness of %zu bytes", m.size());
    u32 n = (u32) m.size();
    u32 a = r.below(n + 1), k = r.below(n - a + 1);
    VF_CHECK(vf::str(s.subStr(a)) == m.substr(a), "str-substr", "subStr(%u) of %u", a, n);
    VF_CHECK(vf::str(s.subStr(a, k)) == m.substr(a, k), "str-substr", "subStr(%u, %u) of %u", a, k, n);
    VF_CHECK(vf::str(s.left(a)) == m.substr(0, a), "str-left", "left(%u) of %u", a, n);
    VF_CHECK(vf::str(s.right(a)) == m.substr(n - a), "str-right", "right(%u) of %u", a, n);
    VF_CHECK(vf::str(s.shortenedBy(a)) == m.substr(0, n - a), "str-shortened", "shortenedBy(%u) of %u", a, n);
    if (n) {
        u32 i = r.below(n);
        VF_CHECK(s.subStr(0)[i] == m[i] && s.subStr(0).back(-1 - (s32) i) == m[n - 1 - i], "str-index",
                 "byte %u of %u", i, n);
    }
    // Searching
    char c = n && r.chance(3, 4) ? m[r.below(n)] : (char) r.below(256);
    u32 start = r.below(n + 2);
    size_t f = start <= n ? m.find(c, start) : Str::npos;
    s32 want = f == Str::npos ? -1 : (s32) f;
    VF_CHECK(s.findByte(c, start) == want, "str-find", "findByte(%d, %u) gave %d, expected %d in %s", c, start,
             s.findByte(c, start), want, vf::esc(m).c_str());
    VF_CHECK(s.findByte(c) == (m.find(c) == Str::npos ? -1 : (s32) m.find(c)), "str-find", "findByte(%d)", c);
    want = -1;
    for (u32 i = start; i < n; i++)
        if (isX(m[i])) {
            want = (s32) i;
            break;
        }
    VF_CHECK(s.findByte(isX, start) == want, "str-find", "findByte(func, %u) gave %d, expected %d", start,
             s.findByte(isX, start), want);
    VF_CHECK(s.rfindByte(c) == (m.rfind(c) == Str::npos ? -1 : (s32) m.rfind(c)), "str-rfind", "rfindByte(%d) in %s",
             c, vf::esc(m).c_str());
    want = -1;
    for (u32 i = 0; i < n; i++)
        if (isX(m[i]))
            want = (s32) i;
    VF_CHECK(s.rfindByte(isX) == want, "str-rfind", "rfindByte(func)");
    if (n) {
        u32 at = r.below(n);
        VF_CHECK(s.rfindByte(c, at) == (m.rfind(c, at) == Str::npos ? -1 : (s32) m.rfind(c, at)), "str-rfind",
                 "rfindByte(%d, %u) in %s", c, at, vf::esc(m).c_str());
    }
    // Prefix, suffix
    Str other = r.chance(1, 2) ? m.substr(0, r.below(n + 1)) : text(r, 6);
    if (r.chance(1, 4) && !other.empty())
        other[other.size() - 1] ^= 1;
    if (r.chance(1, 8))
        other = m + "x";
    {
        Exact o{other};
        VF_CHECK(s.startsWith(o) == (m.compare(0, other.size(), other) == 0 && other.size() <= n), "str-starts",
                 "startsWith(%s) of %s", vf::esc(other).c_str(), vf::esc(m).c_str());
    }
    other = r.chance(1, 2) ? m.substr(r.below(n + 1)) : other;
    if (r.chance(1, 4) && !other.empty())
        other[0] ^= 1;
    {
        Exact o{other};
        VF_CHECK(s.endsWith(o) == (other.size() <= n && m.compare(n - other.size(), other.size(), other) == 0),
                 "str-ends", "endsWith(%s) of %s", vf::esc(other).c_str(), vf::esc(m).c_str());
    }
    // Trimming
    u32 i = 0, j = n;
    while (i < n && wh(m[i]))
        i++;
    u32 i2 = i;
    while (j > 0 && wh(m[j - 1]))
        j--;
    VF_CHECK(vf::str(s.trim()) == (i < j ? m.substr(i, j - i) : Str()), "str-trim", "trim() of %s",
             vf::esc(m).c_str());
    VF_CHECK(vf::str(s.ltrim()) == m.substr(i2), "str-trim", "ltrim() of %s", vf::esc(m).c_str());
    VF_CHECK(vf::str(s.rtrim()) == m.substr(0, j), "str-trim", "rtrim() of %s", vf::esc(m).c_str());
    i = 0;
    while (i < n && isX(m[i]))
        i++;
    VF_CHECK(vf::str(s.ltrim(isX)) == m.substr(i), "str-trim", "ltrim(func)");
    // Splitting: the non-empty pieces, in order
    std::vector<Str> words;
    Str cur;
    for (char d : m) {
        if (d == c) {
            if (!cur.empty())
                words.push_back(cur);
            cur.clear();
        } else
            cur += d;
    }
    if (!cur.empty())
        words.push_back(cur);
    auto split = s.splitByte(c);
    VF_CHECK(split.numItems() == words.size(), "str-split", "splitByte(%d) gave %u words, expected %zu: %s", c,
             split.numItems(), words.size(), vf::esc(m).c_str());
    for (u32 w = 0; w < split.numItems(); w++)
        VF_CHECK(vf::str(split[w]) == words[w], "str-split", "splitByte(%d) word %u: %s", c, w, vf::esc(m).c_str());
    // Joining
    Str sep = vf::randBytes(r, 4), joined;
    std::vector<StringView> views;
    for (u32 w = 0; w < split.numItems(); w++) {
        views.push_back(split[w]);
        joined += (w ? sep : Str()) + words[w];
    }
    VF_CHECK(vf::str(vf::view(sep).join(ArrayView<const StringView>{views.data(), (u32) views.size()})) == joined,
             "str-join", "join of %zu words with %s", words.size(), vf::esc(sep).c_str());
    {
        // Any components, empty ones too
        std::vector<Str> comps;
        std::vector<StringView> cv;
        Str want;
        for (u32 k = r.below(6); k > 0; k--)
            comps.push_back(r.chance(1, 3) ? Str() : vf::randBytes(r, 5));
        for (size_t k = 0; k < comps.size(); k++) {
            cv.push_back(vf::view(comps[k]));
            want += (k ? m.substr(0, 40) : Str()) + comps[k];
        }
        VF_CHECK(vf::str(s.subStr(0, n < 40 ? n : 40).join(ArrayView<const StringView>{cv.data(), (u32) cv.size()})) == want, "str-join",
                 "join of %zu components", comps.size());
    }
    // Case, reversal, filtering
    Str up = m, lo = m, rv(m.rbegin(), m.rend()), fl = m;
    for (auto& d : up)
        if (d >= 'a' && d <= 'z')
            d -= 32;
    for (auto& d : lo)
        if (d >= 'A' && d <= 'Z')
            d += 32;
    for (auto& d : fl)
        d = rot(d);
    VF_CHECK(vf::str(s.upperAsc()) == up, "str-case", "upperAsc() of %s", vf::esc(m).c_str());
    VF_CHECK(vf::str(s.lowerAsc()) == lo, "str-case", "lowerAsc() of %s", vf::esc(m).c_str());
    VF_CHECK(vf::str(s.reversedBytes()) == rv, "str-reverse", "reversedBytes()");
    VF_CHECK(vf::str(s.filterBytes(rot)) == fl, "str-filter", "filterBytes()");
    // Terminators
    bool nul = n && m[n - 1] == 0;
    VF_CHECK(s.includesNullTerminator() == nul, "str-nul", "includesNullTerminator()");
    VF_CHECK(vf::str(s.withoutNullTerminator()) == (nul ? m.substr(0, n - 1) : m), "str-nul",
             "withoutNullTerminator()");
    {
        HybridString h = s.withNullTerminator();
        Str w = nul ? m : m + Str(1, '\0');
        VF_CHECK(vf::str(h.view()) == w && (!nul || (!h.isOwner && h.bytes == s.bytes)), "str-nul",
                 "withNullTerminator() of %s", vf::esc(m).c_str());
        String back{std::move(h)};
        VF_CHECK(vf::str(back.view()) == w, "str-nul", "withNullTerminator() as String");
    }
    u32 times = r.below(5);
    Str rep;
    for (u32 q = 0; q < times; q++)
        rep += m;
    VF_CHECK(vf::str(s.subStr(0) * times) == rep, "str-repeat", "operator*(%u)", times);
}

// UTF-8 reversal of valid text reverses the code points
template <typename S>
static void rev(const S& s, const std::vector<Str>& chars) {
    Str want;
    for (size_t i = chars.size(); i > 0; i--)
        want += chars[i - 1];
    VF_CHECK(vf::str(s.reversedUTF8()) == want, "str-reverse-utf8", "reversedUTF8() gave %s, expected %s",
             vf::esc(vf::str(s.reversedUTF8())).c_str(), vf::esc(want).c_str());
}

VF_WORKLOAD(string_queries, 24000, 300000) {
    Str m = text(r, r.chance(1, 20) ? 3000 : 24);
    vf::ctx(vf::esc(m));
    vf::distinct(m);
    if (vf::wantSample())
        vf::sample(vf::esc(m.substr(0, 80)));
    size_t b0 = vf::liveBytes();
    {
        Exact e{m};
        switch (idx % 4) {
            case 0:
                queries(r, e.view(), m);
                break;
            case 1: {
                String s{e.view()};
                queries(r, s, m);
                break;
            }
            case 2: {
                HybridString s{e.view()};
                queries(r, s, m);
                break;
            }
            default: {
                HybridString s{String{e.view()}};
                queries(r, s, m);
                break;
            }
        }
        std::vector<Str> chars;
        Str all;
        for (u32 n = r.size(20); n > 0; n--) {
            Str c = vf::randUtf8(r, 1);
            // randUtf8 may give none
            if (!c.empty()) {
                chars.push_back(c);
                all += c;
            }
        }
        Exact u{all};
        rev(u.view(), chars);
        rev(String{u.view()}, chars);
        // Arbitrary bytes: a permutation of the same length, no stray access
        String rr = e.view().reversedUTF8();
        Str p = vf::str(rr), q = m;
        std::sort(p.begin(), p.end());
        std::sort(q.begin(), q.end());
        VF_CHECK(p == q, "str-reverse-utf8", "reversedUTF8() changed the bytes of %s", vf::esc(m).c_str());
    }
    if (!vf::failed())
        VF_CHECK(vf::liveBytes() == b0, "str-leak", "%zd bytes leaked by queries on %s",
                 (ssize_t) (vf::liveBytes() - b0), vf::esc(m).c_str());
}

VF_WORKLOAD(string_compare, 6000, 60000) {
    // A small family with shared prefixes: every pair is ordered like unsigned byte strings
    std::vector<Str> v;
    Str base = text(r, 12);
    for (u32 i = 0; i < 8; i++) {
        Str s = r.chance(2, 3) ? base.substr(0, r.below((u32) base.size() + 1)) + text(r, 3) : text(r, 10);
        v.push_back(s);
    }
    for (auto& a : v)
        for (auto& b : v) {
            Exact x{a}, y{b};
            int w = cmpRef(a, b);
            vf::ctx(vf::esc(a) + " vs " + vf::esc(b));
            VF_CHECK(sgn(compare(x.view(), y.view())) == w, "str-compare", "compare gave %d, expected sign %d: %s, %s",
                     compare(x.view(), y.view()), w, vf::esc(a).c_str(), vf::esc(b).c_str());
            StringView p = x, q = y;
            VF_CHECK((p == q) == (w == 0) && (p != q) == (w != 0) && (p < q) == (w < 0) && (p <= q) == (w <= 0) &&
                         (p > q) == (w > 0) && (p >= q) == (w >= 0),
                     "str-compare", "comparison operators disagree: %s, %s", vf::esc(a).c_str(), vf::esc(b).c_str());
            String s{p}, t{q};
            VF_CHECK((s == t) == (w == 0) && (s < t) == (w < 0), "str-compare", "String comparison");
            Hasher h1, h2;
            h1 << p;
            h2 << q;
            if (w == 0)
                VF_CHECK(h1.result() == h2.result(), "str-hash", "equal strings hash differently");
            VF_CHECK(vf::str(p + q) == a + b && vf::str(s + q) == a + b, "str-concat", "concatenation");
        }
    vf::evals(v.size() * v.size());
    vf::distinct(vf::hashStr(base + v[0] + v[7]));
}

// Lengths beyond 16 bits
VF_WORKLOAD(string_long, 60, 1000) {
    Str unit = vf::randBytes(r, 3) + "u";
    u32 times = 60000 + r.below(20000);
    Str want;
    want.reserve(unit.size() * times);
    for (u32 i = 0; i < times; i++)
        want += unit;
    String s = vf::view(unit) * times;
    VF_CHECK(vf::str(s) == want, "long-repeat", "%zu bytes %u times gave %u bytes", unit.size(), times, s.numBytes);
    u32 cut = r.below((u32) want.size() + 1);
    u32 shared = r.below(cut + 1);
    StringView a = s, b = s.left(cut);
    int w = cut < want.size() ? 1 : 0;
    VF_CHECK(sgn(compare(a, b)) == w && sgn(compare(b, a)) == -w, "long-compare", "%zu against its first %u bytes", want.size(), cut);
    VF_CHECK(a.startsWith(b) && a.endsWith(a.right(cut)) && vf::str(b.subStr(shared)) == want.substr(shared, cut - shared), "long-parts", "first %u bytes", cut);
    VF_CHECK(vf::str(b + a) == want.substr(0, cut) + want, "long-concat", "%u and %zu bytes", cut, want.size());
    String up = a.upperAsc().lowerAsc(), back = a.reversedBytes().reversedBytes();
    VF_CHECK(back == a && up.numBytes == a.numBytes, "long-reverse", "%zu bytes", want.size());
    s32 at = a.findByte([&](char c) { return c == 'u'; }, cut);
    VF_CHECK(at == (s32) want.find('u', cut), "long-find", "found %d", at);
    vf::evals(7);
    vf::distinct(vf::mix((u64) times * 8 + unit.size()));
}

static const Str backing = "a backing buffer that outlives every view of it, \0 and more";

// Histories of owning strings: copies are deep, moves empty their source, every block is freed once.
VF_WORKLOAD(string_owners, 6000, 60000) {
    size_t b0 = vf::liveBytes();
    {
        const u32 N = 4;
        String s[N];
        Str m[N];
        HybridString h[N];
        Str hm[N];
        Str log;
        for (u32 step = 0; step < 50; step++) {
            u32 i = r.below(N), j = r.below(N);
            u32 op = r.below(22);
            log += vf::fmt("%u:%u,%u ", op, i, j);
            vf::ctx(log);
            switch (op) {
                case 0: {
                    Str t = text(r, 40);
                    Exact e{t};
                    s[i] = e.view();
                    m[i] = t;
                    break;
                }
                case 1:
                    s[i] = s[j];
                    m[i] = m[j];
                    break;
                case 2:
                    if (i != j) {
                        s[i] = std::move(s[j]);
                        m[i] = m[j];
                        m[j].clear();
                    }
                    break;
                case 3: {
                    // Assign a piece of itself
                    u32 a = r.below((u32) m[i].size() + 1), k = r.below((u32) m[i].size() - a + 1);
                    s[i] = s[i].subStr(a, k);
                    m[i] = m[i].substr(a, k);
                    break;
                }
                case 4: {
                    Str t = text(r, 10);
                    s[i] += vf::view(t);
                    m[i] += t;
                    break;
                }
                case 5:
                    s[i] += s[j];
                    m[i] += Str(m[j]);
                    break;
                case 6: {
                    u32 n = r.size(60);
                    u32 old = (u32) m[i].size();
                    s[i].resize(n);
                    m[i].resize(n);
                    for (u32 k = old; k < n; k++)
                        s[i][k] = m[i][k] = (char) r.below(256);
                    break;
                }
                case 7:
                    s[i].clear();
                    m[i].clear();
                    break;
                case 8: {
                    u32 n = s[i].numBytes;
                    char* p = s[i].release();
                    VF_CHECK(s[i].isEmpty() && !s[i].bytes, "str-release", "not empty after release()");
                    s[j] = String::adopt(p, n);
                    Str t = m[i];
                    m[i].clear();
                    m[j] = t;
                    break;
                }
                case 9: {
                    String c{s[j]};
                    VF_CHECK(m[j].empty() || c.bytes != s[j].bytes, "str-copy", "copy shares storage");
                    String d{std::move(c)};
                    VF_CHECK(c.isEmpty() && vf::str(d.view()) == m[j], "str-move", "move constructor");
                    break;
                }
                case 10:
                    if (!m[i].empty()) {
                        u32 k = r.below((u32) m[i].size());
                        s[i][k] = m[i][k] = 'Q';
                        s[i].back() = m[i][m[i].size() - 1] = 'Z';
                    }
                    break;
                case 11: {
                    u32 a = r.below(20), k = r.below(30);
                    h[i] = HybridString{StringView{backing.data() + a, k}};
                    hm[i] = backing.substr(a, k);
                    VF_CHECK(!h[i].isOwner, "hybrid-owner", "a view owns its memory");
                    break;
                }
                case 12:
                    h[i] = HybridString{String{s[j]}};
                    hm[i] = m[j];
                    VF_CHECK(h[i].isOwner, "hybrid-owner", "an adopted string is not owned");
                    break;
                case 13:
                    h[i] = h[j];
                    hm[i] = hm[j];
                    break;
                case 14:
                    if (i != j) {
                        h[i] = std::move(h[j]);
                        hm[i] = hm[j];
                        hm[j].clear();
                    }
                    break;
                case 15: {
                    bool own = h[j].isOwner;
                    s[i] = String{std::move(h[j])};
                    m[i] = hm[j];
                    if (own)
                        hm[j].clear();
                    break;
                }
                case 16: {
                    HybridString c{h[j]};
                    VF_CHECK(c.isOwner == h[j].isOwner && vf::str(c.view()) == hm[j], "hybrid-copy", "copy");
                    VF_CHECK(!c.isOwner || hm[j].empty() || c.bytes != h[j].bytes, "hybrid-copy",
                             "copy of an owner shares storage");
                    break;
                }
                case 17:
                    s[i] = h[j].view();
                    m[i] = hm[j];
                    break;
                case 18: {
                    HybridString hh{s[j]};
                    VF_CHECK(!hh.isOwner && (m[j].empty() || hh.bytes == s[j].bytes), "hybrid-owner",
                             "view of a String owns it");
                    break;
                }
                case 19:
                    s[i] = String::format("{}-{}", s[j], r.below(100));
                    m[i] = vf::str(s[i]);
                    VF_CHECK(m[i].size() >= m[j].size() && (i == j || m[i].compare(0, m[j].size(), m[j]) == 0),
                             "str-format", "format lost its argument");
                    break;
                case 20: {
                    StringView v = s[i];
                    u32 a = r.below(v.numBytes + 1);
                    v.offsetHead(a);
                    u32 k = r.below(v.numBytes + 1);
                    v.offsetBack(-(s32) k);
                    VF_CHECK(vf::str(v) == m[i].substr(a, m[i].size() - a - k), "str-offset", "offsetHead/offsetBack");
                    VF_CHECK(v.end() == v.bytes + v.numBytes && v.contains(v.bytes) && v.contains(v.end()) &&
                                 !v.contains(v.end() + 1) && !v.contains(v.bytes - 1),
                             "str-contains", "contains()");
                    break;
                }
                case 21: {
                    char c = (char) r.below(256);
                    s[i] = String{c};
                    m[i] = Str(1, c);
                    break;
                }
            }
            if (vf::failed())
                break;
            for (u32 k = 0; k < N; k++) {
                VF_EXPECT(vf::str(s[k].view()) == m[k], "str-owner", "string %u differs after %s", k, log.c_str());
                VF_EXPECT(vf::str(h[k].view()) == hm[k], "hybrid-owner", "hybrid %u differs after %s", k, log.c_str());
            }
            if (vf::failed())
                break;
        }
        vf::evals(50);
        vf::distinct(log);
    }
    if (!vf::failed())
        VF_CHECK(vf::liveBytes() == b0, "str-leak", "%zd bytes outlive their strings", (ssize_t) (vf::liveBytes() - b0));
}
VF_MAIN()
