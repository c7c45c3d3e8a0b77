// Code point encoders and decoders against definitions written from the Unicode guide.
#include "plyvf.h"
#include <ply-runtime/string/TextEncoding.h>
#include <ply-runtime/io/text/TextConverter.h>
using namespace ply;
using vf::Str;
using St = DecodeResult::Status;

static Str refUtf8(uint32_t c) {
    Str s;
    if (c < 0x80)
        s += (char) c;
    else if (c < 0x800) {
        s += (char) (0xC0 | (c >> 6));
        s += (char) (0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += (char) (0xE0 | (c >> 12));
        s += (char) (0x80 | ((c >> 6) & 63));
        s += (char) (0x80 | (c & 63));
    } else {
        s += (char) (0xF0 | (c >> 18));
        s += (char) (0x80 | ((c >> 12) & 63));
        s += (char) (0x80 | ((c >> 6) & 63));
        s += (char) (0x80 | (c & 63));
    }
    return s;
}
static Str unit16(uint32_t u, bool be) {
    Str s;
    s += (char) (be ? u >> 8 : u);
    s += (char) (be ? u : u >> 8);
    return s;
}
static Str ref16(uint32_t c, bool be) {
    if (c < 0x10000)
        return unit16(c, be);
    c -= 0x10000;
    return unit16(0xD800 + (c >> 10), be) + unit16(0xDC00 + (c & 0x3FF), be);
}

template <typename Enc>
static void roundTrip(uint32_t c, const Str& want, const char* name) {
    // into a buffer with room, and into one of exactly the right size
    for (uint32_t room : {(uint32_t) want.size(), 4u}) {
        vf::Exact buf(Str(room, '\x55'));
        u32 n = Enc::encodePoint(MutableStringView{buf.p, room}, c);
        VF_CHECK(n == want.size() && Str(buf.p, n) == want, "encode", "%s: U+%04X encodes as %s", name, c,
                 vf::esc(buf.p, n).c_str());
        for (uint32_t i = n; i < room; i++)
            VF_CHECK(buf.p[i] == '\x55', "encode-beyond", "%s: U+%04X wrote past its %u bytes", name, c, n);
    }
    VF_CHECK(Enc::numBytes(c) == want.size(), "numbytes", "%s: U+%04X numBytes %u", name, c, Enc::numBytes(c));
    const TextEncoding* te = TextEncoding::get<Enc>();
    char b4[4];
    VF_CHECK(te->encodePoint(MutableStringView{b4, 4}, c) == want.size() && Str(b4, want.size()) == want,
             "encode-table", "%s: U+%04X through the table", name, c);
    for (const Str& tail : {Str(), Str("\x80", 1), Str("A\0zz", 4), Str("\xdc\xdc\xdc\xdc", 4)}) {
        vf::Exact in(want + tail);
        DecodeResult d = Enc::decodePoint(in);
        VF_CHECK(d.point == (s32) c && d.numBytes == want.size() && d.status == St::Valid, "decode",
                 "%s: U+%04X decodes as %d (%u bytes, status %d)", name, c, d.point, d.numBytes, (int) d.status);
        DecodeResult e = te->decodePoint(in);
        VF_CHECK(e.point == d.point && e.numBytes == d.numBytes && e.status == d.status, "decode-table",
                 "%s: U+%04X through the table", name, c);
    }
    for (const Str& head : {Str(), Str("AAAA")}) {
        vf::Exact in(head + want);
        VF_CHECK(Enc::backNumBytes(in) == want.size(), "back", "%s: backing over U+%04X gives %u", name, c,
                 Enc::backNumBytes(in));
    }
    for (size_t k = 0; k < want.size(); k++) { // every proper prefix is truncated, never valid
        vf::Exact in(want.substr(0, k));
        DecodeResult d = Enc::decodePoint(in);
        bool single = k >= te->unitSize;
        VF_CHECK(d.status == St::Truncated && d.numBytes == (single ? te->unitSize : 0) &&
                     (d.point >= 0) == (d.numBytes > 0),
                 "truncated", "%s: %zu bytes of U+%04X give status %d, %u bytes", name, k, c, (int) d.status, d.numBytes);
    }
}

static const uint32_t Step = 2048;
VF_WORKLOAD(every_point, 0x110000 / Step, 0x110000 / Step) {
    for (uint32_t c = (uint32_t) idx * Step; c < (idx + 1) * Step; c++) {
        roundTrip<UTF8>(c, refUtf8(c), "UTF-8");
        if (c >= 0xD800 && c < 0xE000) { // not encodable alone as valid UTF-16: decodes to itself, flagged
            for (bool be : {false, true}) {
                vf::Exact in(unit16(c, be) + unit16('A', be));
                DecodeResult d = be ? UTF16_BE::decodePoint(in) : UTF16_LE::decodePoint(in);
                VF_CHECK(d.point == (s32) c && d.numBytes == 2 && d.status == St::Invalid, "surrogate",
                         "lone U+%04X decodes as %d, status %d", c, d.point, (int) d.status);
                char b[4];
                u32 n = be ? UTF16_BE::encodePoint(MutableStringView{b, 4}, c)
                           : UTF16_LE::encodePoint(MutableStringView{b, 4}, c);
                VF_CHECK(Str(b, n) == unit16(c, be), "surrogate", "lone U+%04X does not encode to itself", c);
            }
        } else {
            roundTrip<UTF16_LE>(c, ref16(c, false), "UTF-16LE");
            roundTrip<UTF16_BE>(c, ref16(c, true), "UTF-16BE");
        }
        if (c < 256)
            roundTrip<Enc_Bytes>(c, Str(1, (char) c), "bytes");
        else {
            char b[1];
            VF_CHECK(Enc_Bytes::encodePoint(MutableStringView{b, 1}, c) == 1, "bytes", "U+%04X not replaced", c);
        }
        vf::distinct(c);
    }
    vf::evals(Step - 1);
}

// Structural decoding of one point: what the guide says about malformed text.
struct Ref {
    uint32_t point;
    uint32_t n;
    bool valid, mayBeTruncated, anyValidity, overlong = false;
};
static Ref refDecode8(const Str& s, size_t i) {
    auto at = [&](size_t k) { return i + k < s.size() ? (int) (uint8_t) s[i + k] : -1; };
    auto cont = [&](size_t k) { return at(k) >= 0x80 && at(k) < 0xC0; };
    uint32_t f = (uint8_t) s[i];
    if (f < 0x80)
        return {f, 1, true, false, false};
    uint32_t need = f >= 0xC0 && f < 0xE0 ? 1 : f >= 0xE0 && f < 0xF0 ? 2 : f >= 0xF0 && f < 0xF8 ? 3 : 0;
    if (need) {
        bool ok = true;
        for (uint32_t k = 1; k <= need; k++)
            ok = ok && cont(k);
        if (ok) {
            uint32_t v = f & (0x3F >> need);
            for (uint32_t k = 1; k <= need; k++)
                v = v << 6 | (at(k) & 63);
            if (refUtf8(v).size() < need + 1) // overlong
                return {f, 1, false, false, false, true};
            return {v, need + 1, true, false, v > 0x10FFFF}; // too large: unspecified
        }
        if (at(need) < 0)
            return {f, 1, false, true, false}; // cut off by the end of input
    }
    return {f, 1, false, false, false};
}

VF_WORKLOAD(any_bytes, 6000, 200000) {
    Str s;
    switch (r.below(4)) {
        case 0:
            s = vf::randBytes(r, 60);
            break;
        case 1:
            s = vf::randUtf8(r, 30);
            break;
        case 2: { // mostly UTF-8 structure with damage
            s = vf::randUtf8(r, 30);
            for (int k = r.below(4); k >= 0 && !s.empty(); k--) {
                uint32_t p = r.below(s.size());
                if (r.chance(1, 2))
                    s.erase(p, 1);
                else
                    s[p] = (char) r.below(256);
            }
            break;
        }
        default:
            for (int k = r.below(30); k >= 0; k--)
                s += "\x80\xbf\xc0\xc3\xdf\xe0\xe2\xed\xef\xf0\xf4\xf7\xf8\xff\x7f\0Az"[r.below(18)];
    }
    vf::ctx(vf::esc(s));
    // UTF-8, point by point
    bool regular = true;
    for (size_t i = 0; i < s.size();) {
        Ref w = refDecode8(s, i);
        vf::Exact in(s.substr(i));
        DecodeResult d = UTF8::decodePoint(in);
        VF_CHECK(d.numBytes > 0 && d.numBytes <= s.size() - i && d.point >= 0, "advance",
                 "UTF-8 decoding consumed %u of %zu bytes at %zu of %s", d.numBytes, s.size() - i, i,
                 vf::esc(s).c_str());
        regular = regular && !w.overlong && !w.anyValidity;
        if (w.anyValidity) {
            VF_CHECK((d.status == St::Valid && d.numBytes == w.n && (uint32_t) d.point == w.point) ||
                         (d.status != St::Valid && d.numBytes == 1 && d.point == (uint8_t) s[i]),
                     "decode8", "too large a point at %zu of %s", i, vf::esc(s).c_str());
        } else {
            VF_CHECK((uint32_t) d.point == w.point && d.numBytes == w.n && (d.status == St::Valid) == w.valid,
                     "decode8", "at %zu of %s: point %d, %u bytes, status %d; expected %u, %u", i, vf::esc(s).c_str(),
                     d.point, d.numBytes, (int) d.status, w.point, w.n);
            if (!w.valid)
                VF_CHECK(d.status == St::Invalid || w.mayBeTruncated, "decode8-status",
                         "at %zu of %s: truncated reported with the bytes to decide it present", i,
                         vf::esc(s).c_str());
        }
        i += d.numBytes;
        vf::count("points decoded");
    }
    // Every UTF-16 unit pair
    for (int be = 0; be < 2; be++)
        for (size_t i = 0; i < s.size();) {
            vf::Exact in(s.substr(i));
            DecodeResult d = be ? UTF16_BE::decodePoint(in) : UTF16_LE::decodePoint(in);
            if (s.size() - i < 2) {
                VF_CHECK(d.numBytes == 0 && d.point < 0 && d.status == St::Truncated, "decode16", "odd byte decoded");
                break;
            }
            auto unit = [&](size_t k) {
                return be ? (uint8_t) s[k] << 8 | (uint8_t) s[k + 1] : (uint8_t) s[k] | (uint8_t) s[k + 1] << 8;
            };
            int u = unit(i), v = i + 4 <= s.size() ? unit(i + 2) : -1;
            bool hi = u >= 0xD800 && u < 0xDC00, lo = u >= 0xDC00 && u < 0xE000;
            bool pair = hi && v >= 0xDC00 && v < 0xE000;
            s32 wp = pair ? 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00) : u;
            St ws = pair || !(hi || lo) ? St::Valid : hi && v < 0 ? St::Truncated : St::Invalid;
            VF_CHECK(d.point == wp && d.numBytes == (pair ? 4 : 2) && d.status == ws, "decode16",
                     "unit %04x %04x: point %d, %u bytes, status %d", u, v, d.point, d.numBytes, (int) d.status);
            i += d.numBytes;
        }
    // walking backwards covers the text, without reading before it
    size_t end = s.size();
    while (end > 0) {
        vf::Exact in(s.substr(0, end));
        u32 n = UTF8::backNumBytes(in);
        VF_CHECK(n >= 1 && n <= 4 && n <= end, "back", "backing %u bytes from %zu", n, end);
        if (n > 1) {
            Ref w = refDecode8(s.substr(0, end), end - n);
            VF_CHECK((w.valid && w.n == n) || w.overlong, "back", "backed %u bytes over something else than a code point in %s", n,
                     vf::esc(s).c_str());
        }
        end -= n;
    }
    // whole-string conversion: invalid text behaves as its bytes' points; UTF-16 comes back unchanged
    Str want16;
    for (size_t i = 0; i < s.size();) {
        Ref w = refDecode8(s, i);
        want16 += ref16(w.point, false);
        i += w.n;
    }
    if (regular) {
        vf::Exact in(s);
        String t = TextConverter::convert<UTF16_LE, UTF8>(in);
        VF_CHECK(vf::str(t) == want16, "convert", "UTF-8 to UTF-16 of %s gave %s", vf::esc(s).c_str(),
                 vf::esc(vf::str(t)).c_str());
    }
    if (!(s.size() & 1)) { // any sequence of 16-bit units has a UTF-8 form that converts back exactly
        vf::Exact in(s);
        String t = TextConverter::convert<UTF8, UTF16_BE>(in);
        String u = TextConverter::convert<UTF16_BE, UTF8>(t);
        VF_CHECK(vf::str(u) == s, "roundtrip16", "16-bit text %s comes back as %s", vf::esc(s).c_str(),
                 vf::esc(vf::str(u)).c_str());
    }
    {
        vf::Exact in(s);
        String t = TextConverter::convert<UTF8, Enc_Bytes>(in);
        Str w;
        for (char c : s)
            w += refUtf8((uint8_t) c);
        VF_CHECK(vf::str(t) == w, "convert", "Latin-1 to UTF-8 of %s", vf::esc(s).c_str());
        String u = TextConverter::convert<Enc_Bytes, UTF8>(t);
        VF_CHECK(vf::str(u) == s, "convert", "Latin-1 through UTF-8 of %s", vf::esc(s).c_str());
    }
    vf::distinct(s);
    if (vf::wantSample())
        vf::sample(vf::esc(s));
}

VF_MAIN()
