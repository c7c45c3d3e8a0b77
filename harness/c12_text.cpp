// Text scanners and escape writers against readers written from each format's rules.
#include "pipevf.h"
#include <ply-runtime/io/impl/FormatString.h>
#include <ply-runtime/io/impl/TypeParser.h>
#include <ply-runtime/io/text/LiquidTags.h>
using namespace ply;
using vf::Str;

struct Parsed {
    bool error;
    size_t used;
    Str rest;
};
template <typename F>
static Parsed with(const Str& text, vf::Rng& r, F&& fn) {
    Parsed p;
    auto run = [&](InStream* ins) {
        fn(ins);
        p.error = ins->anyParseError();
        p.used = (size_t) ins->getSeekPos();
        while (ins->tryMakeBytesAvailable()) {
            p.rest += vf::str(ins->viewAvailable());
            ins->curByte = ins->endByte;
        }
    };
    if (r.chance(1, 2)) {
        vf::Exact mem(text);
        ViewInStream ins{mem.view()};
        run(&ins);
    } else {
        InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{new vf::SrcPipe(text, r.u64(), r.pick({0u, 1u, 2u, 5u}))}}, 7};
        run(&ins);
    }
    return p;
}
#define USED(p, text, want, key) \
    VF_CHECK((p).used == (want) && (p).rest == (text).substr(want), key, "%s: consumed %zu, expected %zu", vf::esc(text).c_str(), (p).used, \
             (size_t)(want))

static bool white(unsigned char c) {
    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
}

VF_WORKLOAD(scanners, 40000, 800000) {
    Str s;
    switch (r.below(4)) {
        case 0:
            s = vf::randOver(r, "aZ_09$-. \t\n\r\xc3\xa9\x80", 30);
            break;
        case 1:
            s = vf::randBytes(r, 40);
            break;
        case 2:
            s = vf::randUtf8(r, 200);
            break;
        default:
            s = Str(r.below(300), "x \n"[r.below(3)]) + vf::randBytes(r, 5);
    }
    // line
    {
        bool rc = false;
        Parsed p = with(s, r, [&](InStream* ins) { rc = ins->parse<fmt::Line>(); });
        size_t e = s.find('\n');
        bool found = e != Str::npos;
        USED(p, s, found ? e + 1 : s.size(), "line");
        VF_CHECK(rc == found && p.error == !found, "line-result", "%s: %d error %d", vf::esc(s).c_str(), rc, p.error);
    }
    // white and non-white runs
    {
        size_t e = 0;
        while (e < s.size() && white(s[e]))
            e++;
        Parsed p = with(s, r, [&](InStream* ins) { ins->parse<fmt::Whitespace>(); });
        USED(p, s, e, "whitespace");
        e = 0;
        while (e < s.size() && !white(s[e]))
            e++;
        p = with(s, r, [&](InStream* ins) { ins->parse<fmt::NonWhitespace>(); });
        USED(p, s, e, "nonwhitespace");
        VF_CHECK(!p.error, "nonwhitespace-error", "error set");
        char stop = s.empty() ? 'q' : s[r.below((uint32_t) s.size())];
        e = s.find(stop);
        if (e == Str::npos)
            e = s.size();
        p = with(s, r, [&](InStream* ins) { ins->parse(fmt::Callback{[&](char c) { return c != stop; }}); });
        USED(p, s, e, "callback");
    }
    // identifier
    {
        u32 flags = r.below(4);
        size_t e = 0;
        while (e < s.size()) {
            unsigned char c = s[e];
            bool ok = isalpha(c) || c == '_' || c >= 0x80 || (e > 0 && isdigit(c)) || ((flags & 1) && c == '$') || ((flags & 2) && c == '-');
            if (!ok)
                break;
            e++;
        }
        bool rc = false;
        Parsed p = with(s, r, [&](InStream* ins) { rc = ins->parse(fmt::Identifier{flags}); });
        USED(p, s, e, "identifier");
        VF_CHECK(rc == (e > 0) && p.error == (e == 0), "identifier-result", "%s flags %u: returned %d, error %d", vf::esc(s).c_str(), flags, rc,
                 p.error);
        String copy;
        p = with(s, r, [&](InStream* ins) {
            if (ins->isView())
                copy = ins->asViewInStream()->readView(fmt::Identifier{flags});
            else
                copy = ins->readString(fmt::Identifier{flags});
        });
        VF_CHECK(vf::str(copy) == s.substr(0, e), "identifier-text", "%s: %s", vf::esc(s).c_str(), vf::esc(vf::str(copy)).c_str());
    }
    vf::distinct(vf::hashStr(s));
}

VF_WORKLOAD(special, 40000, 800000) {
    Str sp, s;
    sp = r.pick({Str("*/"), Str("\n"), Str("-->"), Str("%>"), Str("abb"), Str("abcbc"), Str("\xff\x80"), Str("]]")});
    if (sp == "]]")
        sp = "]}}]";
    // the first letter must not occur again
    for (size_t i = 1; i < sp.size(); i++)
        if (sp[i] == sp[0])
            sp[i] = 'z';
    uint32_t n = r.size(r.chance(1, 6) ? 300 : 20);
    for (uint32_t i = 0; i < n; i++)
        s += r.chance(3, 4) ? sp[r.below((uint32_t) sp.size())] : (char) r.below(256);
    bool rc = false;
    Parsed p = with(s, r, [&](InStream* ins) { rc = fmt::scanUpToAndIncludingSpecial(ins, vf::view(sp)); });
    size_t e = s.find(sp);
    bool found = e != Str::npos;
    USED(p, s, found ? e + sp.size() : s.size(), "special");
    VF_CHECK(rc == found && p.error == !found, "special-result", "%s in %s: %d", vf::esc(sp).c_str(), vf::esc(s).c_str(), rc);
    vf::count(found ? "special found" : "special absent");
    vf::distinct(vf::hashStr(s));
}

enum { NoOpen = fmt::QuotedString::NoOpeningQuote, EndLine = fmt::QuotedString::UnexpectedEndOfLine, EndFile = fmt::QuotedString::UnexpectedEndOfFile,
       BadEsc = fmt::QuotedString::BadEscapeSequence };
struct QuoteRef {
    Str value;
    size_t used = 0;
    std::vector<int> errors;
};
static int hexv(unsigned char c) {
    return isdigit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static QuoteRef refQuoted(const Str& s, bool single) {
    QuoteRef q;
    size_t i = 0;
    if (s.empty()) {
        q.errors.push_back(EndFile);
        return q;
    }
    if (s[0] != '"' && !(single && s[0] == '\'')) {
        q.errors.push_back(NoOpen);
        return q;
    }
    char quote = s[0];
    bool triple = s.size() >= 3 && s[1] == quote && s[2] == quote;
    i = triple ? 3 : 1;
    Str close(triple ? 3 : 1, quote);
    for (;;) {
        if (i >= s.size()) {
            q.errors.push_back(EndFile);
            break;
        }
        if (s.compare(i, close.size(), close) == 0) {
            i += close.size();
            break;
        }
        char c = s[i];
        if (c == '\n' || c == '\r') {
            if (!triple) {
                q.errors.push_back(EndLine);
                break;
            }
            if (c == '\n')
                q.value += c;
            i++;
        } else if (c == '\\') {
            i++;
            if (i >= s.size()) {
                q.errors.push_back(EndFile);
                break;
            }
            char d = s[i];
            if (d == '\n' || d == '\r') {
                q.errors.push_back(EndLine);
                break;
            }
            i++;
            if (d == '\\' || d == '\'' || d == '"')
                q.value += d;
            else if (d == 'n')
                q.value += '\n';
            else if (d == 'r')
                q.value += '\r';
            else if (d == 't')
                q.value += '\t';
            else if (d == 'x' && i + 1 < s.size() && hexv(s[i]) >= 0 && hexv(s[i + 1]) >= 0) {
                q.value += (char) (hexv(s[i]) * 16 + hexv(s[i + 1]));
                i += 2;
            } else
                q.errors.push_back(BadEsc);
        } else {
            q.value += c;
            i++;
        }
    }
    q.used = i;
    return q;
}

VF_WORKLOAD(quoted, 60000, 1500000) {
    Str s;
    switch (r.below(4)) {
        case 0:
            s = vf::randOver(r, "\"\"\"'ab\\\n\rxnt0f", 14);
            break;
        case 1:
            s = "\"" + vf::randOver(r, "ab \\\"'ntr\xc3\xa9x41", 20) + "\"" + vf::randOver(r, "\"a", 3);
            break;
        case 2:
            s = Str("\"\"\"") + vf::randOver(r, "\"\"a\n\r\\x0", 20) + "\"\"\"";
            break;
        default:
            s = "'" + vf::randBytes(r, 20) + "'";
    }
    bool single = r.chance(1, 2);
    QuoteRef q = refQuoted(s, single);
    std::vector<int> errors;
    String got;
    Parsed p = with(s, r, [&](InStream* ins) {
        fmt::QuotedString f;
        f.flags = single ? fmt::AllowSingleQuote : 0;
        f.errorCallback = {[](std::vector<int>* errs, InStream*, fmt::QuotedString::ErrorCode e) { errs->push_back((int) e); },
                           &errors};
        got = ins->parse(f);
    });
    VF_CHECK(errors == q.errors && p.error == !q.errors.empty(), "quoted-errors", "%s: %zu errors, expected %zu", vf::esc(s).c_str(),
             errors.size(), q.errors.size());
    // after a failure, how much of a run of closing quotes was looked at is not stated
    if (q.errors.empty() || q.errors.back() != EndFile)
        USED(p, s, q.used, "quoted");
    if (q.errors.empty()) {
        VF_CHECK(vf::str(got) == q.value, "quoted-value", "%s reads as %s, expected %s", vf::esc(s).c_str(), vf::esc(vf::str(got)).c_str(),
                 vf::esc(q.value).c_str());
        vf::count("quoted ok");
    } else
        vf::count("quoted errors");
    vf::distinct(vf::hashStr(s));
}

static Str randAny(vf::Rng& r) {
    switch (r.below(5)) {
        case 0:
            return vf::randBytes(r, 80);
        case 1:
            return vf::randUtf8(r, 60);
        case 2:
            return vf::randOver(r, "\\\" '<>&;\t\n\r", 25);
        case 3: {
            Str s;
            for (uint32_t i = 0, n = r.below(20); i < n; i++)
                s += (char) r.below(40);
            return s;
        }
        default:
            return vf::randOver(r, "\\\\\"\" a\xc3\xe2\xf0\x80", 15);
    }
}

// Number of code points, counting as the escape writers do: undecodable bytes one at a time.
static size_t cutPoints(const Str& s, uint32_t n) {
    size_t i = 0;
    while (i < s.size() && n > 0) {
        unsigned char a = s[i];
        auto cont = [&](size_t k) { return i + k < s.size() && ((unsigned char) s[i + k] & 0xC0) == 0x80; };
        unsigned char b = i + 1 < s.size() ? s[i + 1] : 0; // overlong forms are undecodable
        i += a >= 0xC2 && a < 0xE0 && cont(1) ? 2
             : a >= 0xE0 && a < 0xF0 && cont(1) && cont(2) && (a > 0xE0 || b >= 0xA0) ? 3
             : a >= 0xF0 && a < 0xF8 && cont(1) && cont(2) && cont(3) && (a > 0xF0 || b >= 0x90) ? 4 : 1;
        n--;
    }
    return i;
}

VF_WORKLOAD(escapes, 40000, 1000000) {
    Str s = randAny(r);
    vf::Exact mem(s);
    Str e = vf::str(String::format("{}", fmt::EscapedString{mem.view()}));
    for (unsigned char c : e)
        VF_CHECK(c >= 32, "escape-raw", "%s escapes to text with control characters", vf::esc(s).c_str());
    QuoteRef q = refQuoted("\"" + e + "\"", false);
    VF_CHECK(q.errors.empty() && q.value == s && q.used == e.size() + 2, "escape-decode", "%s escapes to %s", vf::esc(s).c_str(), e.c_str());
    String back;
    Str lit = "\"" + e + "\"" + Str(r.below(3), 'z');
    Parsed p = with(lit, r, [&](InStream* ins) { back = ins->parse<fmt::QuotedString>(); });
    VF_CHECK(!p.error && vf::str(back) == s && p.used == e.size() + 2, "escape-roundtrip", "%s -> %s -> %s", vf::esc(s).c_str(), e.c_str(),
             vf::esc(vf::str(back)).c_str());
    // limited to a number of characters
    uint32_t lim = 1 + r.below(10);
    size_t cut = cutPoints(s, lim);
    Str head = s.substr(0, cut);
    Str want = vf::str(String::format("{}", fmt::EscapedString{vf::view(head)})) + (cut < s.size() ? "..." : "");
    Str got = vf::str(String::format("{}", fmt::EscapedString{mem.view(), lim}));
    VF_CHECK(got == want, "escape-limit", "%s limited to %u: %s", vf::esc(s).c_str(), lim, got.c_str());
    // XML
    Str x = vf::str(String::format("{}", fmt::XMLEscape{mem.view()}));
    Str dec;
    bool ok = true;
    for (size_t i = 0; i < x.size() && ok;) {
        char c = x[i];
        ok = c != '<' && c != '>' && c != '"';
        if (c == '&') {
            size_t semi = x.find(';', i);
            Str name = semi == Str::npos ? Str() : x.substr(i + 1, semi - i - 1);
            static const std::map<Str, char> ents = {{"lt", '<'}, {"gt", '>'}, {"quot", '"'}, {"amp", '&'}, {"apos", '\''}};
            auto it = ents.find(name);
            ok = it != ents.end();
            if (ok)
                dec += it->second;
            i = semi + 1;
        } else {
            dec += c;
            i++;
        }
    }
    VF_CHECK(ok && dec == s, "xml", "%s escapes to %s", vf::esc(s).c_str(), vf::esc(x).c_str());
    got = vf::str(String::format("{}", fmt::XMLEscape{mem.view(), lim}));
    want = vf::str(String::format("{}", fmt::XMLEscape{vf::view(head)})) + (cut < s.size() ? "..." : "");
    VF_CHECK(got == want, "xml-limit", "%s limited to %u: %s", vf::esc(s).c_str(), lim, vf::esc(got).c_str());
    vf::distinct(vf::hashStr(s));
}

// The argument splitting of the Microsoft C runtime.
static std::vector<Str> crtSplit(const Str& c) {
    std::vector<Str> out;
    size_t i = 0;
    while (i < c.size()) {
        while (i < c.size() && (c[i] == ' ' || c[i] == '\t'))
            i++;
        if (i >= c.size())
            break;
        Str a;
        bool in = false;
        while (i < c.size()) {
            size_t bs = 0;
            while (i < c.size() && c[i] == '\\') {
                bs++;
                i++;
            }
            if (i < c.size() && c[i] == '"') {
                a += Str(bs / 2, '\\');
                if (bs & 1)
                    a += '"';
                else if (in && i + 1 < c.size() && c[i + 1] == '"') {
                    a += '"';
                    i++;
                } else
                    in = !in;
                i++;
                continue;
            }
            a += Str(bs, '\\');
            if (i >= c.size() || (!in && (c[i] == ' ' || c[i] == '\t')))
                break;
            a += c[i++];
        }
        out.push_back(a);
    }
    return out;
}
VF_WORKLOAD(cmdline, 30000, 800000) {
    std::vector<Str> args;
    MemOutStream mout;
    for (uint32_t i = 0, n = 1 + r.below(5); i < n; i++) {
        Str a = r.chance(1, 8) ? Str() : r.chance(1, 2) ? vf::randOver(r, "\\\"ab \t", 10) : randAny(r);
        a.erase(std::remove(a.begin(), a.end(), '\0'), a.end());
        args.push_back(a);
        if (i)
            mout << ' ';
        vf::Exact mem(a);
        mout << fmt::CmdLineArg_WinCrt{mem.view()};
    }
    Str line = vf::str(mout.moveToString());
    std::vector<Str> back = crtSplit(line);
    Str all;
    for (auto& a : args)
        all += "[" + vf::esc(a) + "]";
    VF_CHECK(back == args, "cmdline", "%s becomes %s", all.c_str(), vf::esc(line).c_str());
    vf::distinct(vf::hashStr(line));
}

VF_WORKLOAD(liquid, 30000, 800000) {
    Str s = r.chance(1, 2) ? vf::randOver(r, "<%>ab", 25) : vf::randOver(r, "<<%%>> x\n", 60);
    Str want, got;
    std::vector<std::pair<Str, Str>> tags, seen;
    size_t i = 0;
    bool open = false;
    while (i < s.size()) {
        if (s.compare(i, 2, "<%") == 0) {
            size_t e = s.find("%>", i + 2);
            if (e == Str::npos) {
                open = true;
                break;
            }
            tags.push_back({s.substr(i, e + 2 - i), s.substr(i + 2, e - i - 2)});
            want += "#" + std::to_string(tags.size());
            i = e + 2;
        } else
            want += s[i++];
    }
    vf::Exact mem(s);
    ViewInStream vins{mem.view()};
    MemOutStream mout;
    extractLiquidTags(&mout, &vins, [&](StringView whole, StringView inner) {
        seen.push_back({vf::str(whole), vf::str(inner)});
        mout.format("#{}", (u32) seen.size());
    });
    got = vf::str(mout.moveToString());
    if (!open) {
        VF_CHECK(got == want, "liquid-text", "%s gives %s, expected %s", vf::esc(s).c_str(), vf::esc(got).c_str(), vf::esc(want).c_str());
        VF_CHECK(seen == tags, "liquid-tags", "%s: %zu tags, expected %zu", vf::esc(s).c_str(), seen.size(), tags.size());
        vf::count("liquid tags", tags.size());
    } else {
        // unterminated tag: what precedes it is unaffected
        VF_CHECK(got.compare(0, want.size(), want) == 0 && seen.size() >= tags.size() && std::equal(tags.begin(), tags.end(), seen.begin()),
                 "liquid-open", "%s: text before the unterminated tag is lost", vf::esc(s).c_str());
        vf::count("liquid unterminated");
    }
    vf::distinct(vf::hashStr(s));
}

VF_MAIN()
