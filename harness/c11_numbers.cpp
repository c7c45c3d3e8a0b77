// Printing and parsing numbers against exact positional arithmetic.
#include "pipevf.h"
#include <ply-runtime/io/impl/FormatString.h>
#include <ply-runtime/io/impl/TypeParser.h>
#include <math.h>
#include <cmath>
#include <limits>
using namespace ply;
using vf::Str;

static Str refU(unsigned __int128 v, uint32_t radix, bool cap = false) {
    Str s;
    do {
        uint32_t d = (uint32_t)(v % radix);
        s.insert(s.begin(), (char) (d < 10 ? '0' + d : (cap ? 'A' : 'a') + d - 10));
        v /= radix;
    } while (v);
    return s;
}
static Str refS(__int128 v, uint32_t radix, bool cap = false) {
    return v < 0 ? "-" + refU((unsigned __int128) -v, radix, cap) : refU((unsigned __int128) v, radix, cap);
}

// Integers near the edges of every width and every power.
static uint64_t randInt(vf::Rng& r) {
    switch (r.below(5)) {
        case 0:
            return r.u64() >> r.below(64);
        case 1: {
            uint64_t p = 1;
            uint32_t radix = 2 + r.below(35), k = r.below(64);
            while (k-- && p <= ~0ull / radix)
                p *= radix;
            return p + (uint64_t) r.range(-2, 2);
        }
        case 2:
            return (1ull << r.below(64)) + (uint64_t) r.range(-3, 3);
        case 3:
            return ~0ull - r.below(40);
        default:
            return r.pick({0ull, 1ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~0ull,
                           0x71c71c71c71c71bull, 0x71c71c71c71c71cull});
    }
}

struct Parsed {
    bool error;
    size_t used;
};
// Runs `fn(InStream*)` over the text from a view of exactly its size or from a splitting pipe.
template <typename F>
static Parsed with(const Str& text, vf::Rng& r, F&& fn) {
    Parsed p;
    if (r.chance(1, 2)) {
        vf::Exact mem(text);
        ViewInStream ins{mem.view()};
        fn(&ins);
        p.error = ins.anyParseError();
        p.used = (size_t) ins.getSeekPos();
    } else {
        InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{new vf::SrcPipe(text, r.u64(), r.pick({0u, 1u, 2u, 5u}))}}, 7};
        fn(&ins);
        p.error = ins.anyParseError();
        p.used = (size_t) ins.getSeekPos();
    }
    return p;
}

template <typename T>
static void parseOne(vf::Rng& r, const Str& text, uint32_t radix, const char* name) {
    bool isSigned = std::is_signed<T>::value;
    size_t i = 0;
    bool neg = false;
    if (isSigned && !text.empty() && text[0] == '-') {
        neg = true;
        i = 1;
    }
    size_t digits = 0;
    __int128 v = 0;
    bool over = false;
    for (; i < text.size(); i++) {
        unsigned char c = text[i];
        uint32_t d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
        if (d >= radix)
            break;
        digits++;
        if (!over)
            v = v * radix + d;
        if (v > ((__int128) 1 << 70))
            over = true;
    }
    if (neg)
        v = -v;
    bool valid = digits > 0 && !over && v >= (__int128) std::numeric_limits<T>::min() && v <= (__int128) std::numeric_limits<T>::max();
    T got = 0;
    Parsed p = with(text, r, [&](InStream* ins) { got = ins->parse<T>(fmt::Radix{radix}); });
    VF_CHECK(p.used == i, "consumed", "%s radix %u: %s consumed %zu, expected %zu", name, radix, vf::esc(text).c_str(), p.used, i);
    VF_CHECK(p.error == !valid, "error", "%s radix %u: %s error=%d, expected %d", name, radix, vf::esc(text).c_str(), p.error, !valid);
    if (valid)
        VF_CHECK((__int128) got == v, "value", "%s radix %u: %s parsed wrongly", name, radix, vf::esc(text).c_str());
    vf::count(valid ? "parsed" : "rejected");
    if (radix == 10) {
        vf::Exact mem(text);
        size_t a = 0, b = text.size();
        auto white = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
        while (a < b && white(text[a]))
            a++;
        while (b > a && white(text[b - 1]))
            b--;
        if (a == 0) {
            T t = mem.view().to<T>((T) 77);
            T want = valid && i == b ? (T) v : (T) 77;
            VF_CHECK(t == want, "to", "%s: %s.to() is wrong", name, vf::esc(text).c_str());
        }
    }
}
static void parseAll(vf::Rng& r, const Str& text, uint32_t radix) {
    parseOne<u64>(r, text, radix, "u64");
    parseOne<s64>(r, text, radix, "s64");
    parseOne<u32>(r, text, radix, "u32");
    parseOne<s32>(r, text, radix, "s32");
    parseOne<u16>(r, text, radix, "u16");
    parseOne<s16>(r, text, radix, "s16");
    parseOne<u8>(r, text, radix, "u8");
    parseOne<s8>(r, text, radix, "s8");
}

VF_WORKLOAD(integers, 40000, 1500000) {
    uint64_t v = randInt(r);
    uint32_t radix = 2 + r.below(35);
    bool cap = r.chance(1, 2);
    auto same = [&](const String& got, const Str& want, const char* what) {
        VF_CHECK(vf::str(got) == want, "print", "%s: printed %s, expected %s", what, vf::str(got).c_str(), want.c_str());
    };
    same(String::from((u64) v), refU(v, 10), "u64");
    same(String::from((s64) v), refS((s64) v, 10), "s64");
    same(String::from((u32) v), refU((u32) v, 10), "u32");
    same(String::from((s32) v), refS((s32) v, 10), "s32");
    same(String::from((u16) v), refU((u16) v, 10), "u16");
    same(String::from((s16) v), refS((s16) v, 10), "s16");
    same(String::from((u8) v), refU((u8) v, 10), "u8");
    same(String::from((s8) v), refS((s8) v, 10), "s8");
    same(String::from(fmt::WithRadix{(u64) v, radix, cap}), refU(v, radix, cap), "u64 radix");
    same(String::from(fmt::WithRadix{(s64) v, radix, cap}), refS((s64) v, radix, cap), "s64 radix");
    same(String::from(fmt::WithRadix{(u16) v, radix, cap}), refU((u16) v, radix, cap), "u16 radix");
    same(String::from(fmt::WithRadix{(s8) v, radix, cap}), refS((s8) v, radix, cap), "s8 radix");
    same(String::from(fmt::Hex{(u32) v, cap}), refU((u32) v, 16, cap), "hex u32");
    same(String::from(fmt::Hex{(s32) v}), refS((s32) v, 16), "hex s32");
    same(String::format("<{}|{{{}}}|{}>", (u64) v, fmt::Hex{(u64) v}, (s64) v),
         "<" + refU(v, 10) + "|{" + refU(v, 16) + "}|" + refS((s64) v, 10) + ">", "format");
    // and back
    Str tail = r.pick({Str(), Str(" "), Str("-"), Str("."), Str("\xff"), Str("/"), Str(":"), Str("@"), Str("["), Str("`"), Str("{")});
    parseAll(r, refU(v, radix, cap) + tail, radix);
    parseAll(r, refS((s64) v, radix, cap) + tail, radix);
    parseAll(r, refS((s16) v, radix, cap) + tail, radix);
    parseAll(r, refS((s8) (v + 1), radix, cap) + tail, radix);
    vf::distinct(vf::mix(v) + radix);
}

VF_WORKLOAD(integerTexts, 40000, 1000000) {
    uint32_t radix = r.chance(1, 2) ? 10 : 2 + r.below(35);
    Str s;
    switch (r.below(4)) {
        case 0:
            s = vf::randOver(r, "0123456789-abzAZ +.", 30);
            break;
        case 1: // just past the edges
            s = refU((unsigned __int128) randInt(r) + (r.chance(1, 2) ? (unsigned __int128) 1 << 64 : 0), radix);
            break;
        case 2:
            s = Str(r.below(50), '0') + refU(randInt(r), radix);
            break;
        default:
            s = vf::randBytes(r, 12);
    }
    if (r.chance(1, 3))
        s = "-" + s;
    if (r.chance(1, 4))
        s += (char) r.below(256);
    parseAll(r, s, radix);
    vf::distinct(vf::hashStr(s, radix));
}

static double randDouble(vf::Rng& r) {
    double d;
    switch (r.below(6)) {
        case 0: {
            uint64_t b = r.u64();
            memcpy(&d, &b, 8);
            if (!std::isfinite(d))
                d = 1.5;
            return d;
        }
        case 1:
            return (double) (int64_t) randInt(r);
        case 2:
            return (r.unit() - 0.5) * pow(10, r.range(-6, 9));
        case 3:
            return pow(10, (double) r.range(-300, 300)) * (r.chance(1, 2) ? 1 : nextafter(1.0, r.chance(1, 2) ? 0 : 2));
        case 4:
            return r.pick({0.0, -0.0, 1.0, -1.0, 0.01, 0.010000000000000002, 0.009999999999, 999999.9999, 1e6, 999999.9994, 0.001, 5e-324,
                           2.2250738585072014e-308, 1.7976931348623157e308, 0.5, 0.1, 123.456, 1e15, 1e-5});
        default:
            return (double) r.range(-2000000, 2000000) / 1000.0;
    }
}

VF_WORKLOAD(doubles, 60000, 2000000) {
    double d = randDouble(r);
    Str s = vf::str(String::from(d));
    // shape: [-]digits.ddd or [-]d.ddde[-]digits
    size_t i = 0;
    bool neg = i < s.size() && s[i] == '-';
    i += neg;
    size_t whole = i;
    while (i < s.size() && isdigit((unsigned char) s[i]))
        i++;
    bool shape = i > whole && i < s.size() && s[i] == '.';
    size_t frac = ++i;
    while (i < s.size() && isdigit((unsigned char) s[i]))
        i++;
    shape = shape && i == frac + 3;
    if (shape && i < s.size()) {
        shape = s[i] == 'e' && frac - whole == 2;
        i++;
        if (i < s.size() && s[i] == '-')
            i++;
        size_t e = i;
        while (i < s.size() && isdigit((unsigned char) s[i]))
            i++;
        shape = shape && i == s.size() && i > e && i <= e + 3;
        vf::count("doubles.scientific");
    } else
        vf::count("doubles.fixed");
    VF_CHECK(shape, "double-shape", "%.17g prints as %s", d, s.c_str());
    VF_CHECK(neg == (std::signbit(d) != 0), "double-sign", "%.17g prints as %s", d, s.c_str());
    // Precision: three digits after the point.
    double back = 0;
    Parsed p = with(s, r, [&](InStream* ins) { back = ins->parse<double>(); });
    VF_CHECK(!p.error && p.used == s.size(), "double-reparse", "%s: error %d, used %zu", s.c_str(), p.error, p.used);
    double tol = s.find('e') == Str::npos ? 0.0010001 : fabs(d) * 0.0010001 + 1e-320;
    VF_CHECK(fabs(back - d) <= tol, "double-roundtrip", "%.17g prints as %s, which reads as %.17g", d, s.c_str(), back);
    double byLib = strtod(s.c_str(), 0);
    VF_CHECK(fabs(byLib - d) <= tol, "double-print", "%.17g prints as %s", d, s.c_str());
    VF_CHECK(vf::str(String::from((float) 1.5f)) == "1.500", "float-print", "1.5f prints as %s",
             vf::str(String::from(1.5f)).c_str());
    if (fabs(d) > 1e300)
        return; // rounding up to the next power of the radix could leave the range
    // other radixes, where the exponent letter is not a digit
    uint32_t radix = 2 + r.below(13);
    Str sr = vf::str(String::from(fmt::WithRadix{d, radix}));
    double b2 = 0;
    Parsed p2 = with(sr, r, [&](InStream* ins) { b2 = ins->parse<double>(fmt::Radix{radix}); });
    double unit = 1.0 / (radix * radix * radix);
    double tol2 = sr.find('e') == Str::npos ? unit * 1.00001 : fabs(d) * unit * 1.00001 + 1e-319;
    VF_CHECK(!p2.error && p2.used == sr.size(), "radix-reparse", "radix %u: %s: error %d used %zu", radix, sr.c_str(), p2.error, p2.used);
    VF_CHECK(fabs(b2 - d) <= tol2, "radix-roundtrip", "radix %u: %.17g prints as %s, which reads as %.17g", radix, d, sr.c_str(), b2);
    vf::distinct(vf::fnv(&d, 8));
}

VF_WORKLOAD(doubleTexts, 60000, 2000000) {
    uint32_t radix = r.chance(1, 2) ? 10 : 2 + r.below(35);
    bool expOk = radix < 15; // Else the exponent's letter is a digit
    Str s;
    auto digits = [&](uint32_t max, uint32_t min) {
        uint32_t n = min + r.size(max - min);
        for (uint32_t i = 0; i < n; i++)
            s += refU(r.chance(1, 4) ? 0 : r.below(radix), radix);
    };
    if (r.chance(1, 3))
        s += '-';
    digits(r.chance(1, 6) ? 60 : 17, 1);
    if (r.chance(2, 3)) {
        s += '.';
        if (r.chance(1, 4))
            s += Str(r.below(90), '0');
        digits(r.chance(1, 4) ? 90 : 20, 0);
    }
    long exp = 0;
    bool zeroMant = s.find_first_not_of("-.0") == Str::npos;
    if (expOk && r.chance(1, 2)) {
        s += r.chance(1, 2) ? 'e' : 'E';
        exp = zeroMant ? r.range(-999, 999) : r.range(-180, 180);
        if (radix == 10 || zeroMant) {
        } else
            exp = r.range(-60, 60);
        if (exp < 0)
            s += '-';
        else if (r.chance(1, 3))
            s += '+';
        s += refU((unsigned __int128) labs(exp), radix);
    }
    Str tail = r.pick({Str(), Str(" "), Str(","), Str(".."), Str("x"), Str("\xfe")});
    if (s.find('.') == Str::npos && (!expOk || s.find_first_of("eE") == Str::npos) && tail == "..")
        tail = "x";
    if (!expOk && tail == "x")
        tail = "%";
    // exact value in extended precision
    long double v = 0, scale = 1;
    bool neg = s[0] == '-', pastPoint = false;
    for (size_t i = neg; i < s.size() && !(expOk && (s[i] == 'e' || s[i] == 'E')); i++) {
        if (s[i] == '.') {
            pastPoint = true;
            continue;
        }
        uint32_t d = isdigit((unsigned char) s[i]) ? s[i] - '0' : s[i] - 'a' + 10;
        if (pastPoint) {
            scale /= radix;
            v += d * scale;
        } else
            v = v * radix + d;
    }
    v *= powl((long double) radix, (long double) exp);
    if (zeroMant)
        v = 0;
    if (neg)
        v = -v;
    double got = 0;
    Parsed p = with(s + tail, r, [&](InStream* ins) { got = ins->parse<double>(fmt::Radix{radix}); });
    VF_CHECK(!p.error && p.used == s.size(), "dtext", "radix %u: %s: error %d, used %zu of %zu", radix, (s + tail).c_str(), p.error, p.used,
             s.size());
    VF_CHECK(fabsl(got - v) <= fabsl(v) * 1e-12L, "dvalue", "radix %u: %s reads as %.17g, is %.17Lg", radix, s.c_str(), got, v);
    vf::count("doubles parsed");
    vf::distinct(vf::hashStr(s, radix));
}

// Malformed floating-point text: reported, and never read past.
VF_WORKLOAD(doubleJunk, 20000, 400000) {
    Str s = r.chance(1, 2) ? vf::randOver(r, "0123456789.eE+-", 12) : vf::randBytes(r, 8);
    double got = 0;
    Parsed p = with(s, r, [&](InStream* ins) { got = ins->parse<double>(); });
    size_t i = 0;
    auto run = [&] {
        size_t k = i;
        while (i < s.size() && isdigit((unsigned char) s[i]))
            i++;
        return i - k;
    };
    if (i < s.size() && s[i] == '-')
        i++;
    size_t n = run();
    bool dotOnly = false;
    if (i < s.size() && s[i] == '.') {
        i++;
        size_t f = run();
        dotOnly = n == 0 && f > 0; // ".5": not settled
    }
    size_t m = 1;
    if (n && i < s.size() && (s[i] | 0x20) == 'e') {
        i++;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            i++;
        m = run();
    }
    VF_CHECK(p.used == i, "djunk-used", "%s: used %zu, expected %zu", vf::esc(s).c_str(), p.used, i);
    if (!dotOnly)
        VF_CHECK(p.error == (n == 0 || m == 0), "djunk-error", "%s: error %d", vf::esc(s).c_str(), p.error);
    vf::count(p.error ? "junk rejected" : "junk accepted");
    vf::distinct(vf::hashStr(s));
}

VF_WORKLOAD(specials, 20, 200) {
    VF_CHECK(vf::str(String::from((double) INFINITY)) == "inf" && vf::str(String::from(-(double) INFINITY)) == "-inf", "inf", "infinity prints as %s",
             vf::str(String::from((double) INFINITY)).c_str());
    Str n = vf::str(String::from((double) NAN));
    VF_CHECK(n == "nan" || n == "-nan", "nan", "NaN prints as %s", n.c_str());
    VF_CHECK(vf::str(String::from(true)) == "true" && vf::str(String::from(false)) == "false", "bool", "booleans");
    VF_CHECK(vf::str(String::format("{{}}{{}}")) == "{}{}", "braces", "escaped braces");
    VF_CHECK(vf::str(String::format("{}{}{}", 'c', "lit", StringView{"v\0w", 3})) == Str("clitv\0w", 7), "strings", "string arguments");
    double ok = StringView{" 2.50 "}.to<double>(9.0), bad = StringView{"2.5q"}.to<double>(9.0);
    VF_CHECK(ok == 2.5 && bad == 9.0, "to-double", "%g %g", ok, bad);
    float f = StringView{"0.25"}.to<float>();
    VF_CHECK(f == 0.25f, "to-float", "%g", f);
}

VF_MAIN()
