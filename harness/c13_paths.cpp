// C13: paths, against an independent resolver that works one component at a time, and against the kernel.
#include "plyvf.h"
#include <ply-runtime/string/WString.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace ply;
using vf::Str;

struct Where { // what a path means
    char drive = 0;
    bool rooted = false;
    std::vector<Str> names;
    bool operator==(const Where& o) const {
        return tolower(drive) == tolower(o.drive) && rooted == o.rooted && names == o.names;
    }
};
static bool isSep(bool win, char c) {
    return c == '/' || (win && c == '\\');
}
static bool hasDrive(bool win, const Str& s) {
    return win && s.size() >= 2 && s[1] == ':' && ((s[0] >= 'a' && s[0] <= 'z') || (s[0] >= 'A' && s[0] <= 'Z'));
}
static bool isAbs(bool win, const Str& s) {
    return win ? hasDrive(win, s) && s.size() >= 3 && isSep(win, s[2]) : !s.empty() && s[0] == '/';
}
// Changes into each component in turn.
static void go(bool win, Where& w, const Str& arg) {
    Str rest = arg;
    if (hasDrive(win, arg)) {
        w = Where{};
        w.drive = arg[0];
        rest = arg.substr(2);
    }
    if (!rest.empty() && isSep(win, rest[0])) {
        w.rooted = true;
        w.names.clear();
    }
    Str tok;
    for (size_t i = 0; i <= rest.size(); i++) {
        if (i < rest.size() && !isSep(win, rest[i])) {
            tok += rest[i];
            continue;
        }
        if (tok == "..") {
            if (!w.names.empty() && w.names.back() != "..")
                w.names.pop_back();
            else if (!w.rooted)
                w.names.push_back("..");
        } else if (!tok.empty() && tok != ".")
            w.names.push_back(tok);
        tok.clear();
    }
}
static Where resolve(bool win, const std::vector<Str>& args) {
    Where w;
    for (const Str& a : args)
        go(win, w, a);
    return w;
}
static Str spell(bool win, const Where& w, bool trailing) {
    char sep = win ? '\\' : '/';
    Str s;
    if (w.drive)
        s = Str(1, w.drive) + ":";
    if (w.rooted)
        s += sep;
    for (size_t i = 0; i < w.names.size(); i++)
        s += (i ? Str(1, sep) : Str()) + w.names[i];
    if (s.empty())
        s = ".";
    if (trailing && s.back() != sep)
        s += sep;
    return s;
}

static Str randPath(vf::Rng& r, bool win) {
    static const char* const toks[] = {"..", "..", ".", "a", "b", "bc", "a.b", ".a", "...", "a..", "..b", "\xc3\xa9", "x y", "a\\b", "~"};
    Str s;
    auto sep = [&] {
        Str q = win && r.chance(1, 2) ? "\\" : "/";
        while (r.chance(1, 8))
            q += win && r.chance(1, 2) ? "\\" : "/";
        return q;
    };
    if (win && r.chance(1, 3))
        s = r.chance(1, 2) ? "C:" : r.pick({Str("d:"), Str("c:"), Str("D:"), Str("Z:"), Str("a:")});
    if (r.chance(1, 3))
        s += sep();
    uint32_t n = r.below(7);
    for (uint32_t i = 0; i < n; i++) {
        if (i)
            s += sep();
        s += toks[r.below(sizeof(toks) / sizeof(toks[0]))];
    }
    if (r.chance(1, 4))
        s += sep();
    return s;
}
static Str randRaw(vf::Rng& r) {
    return vf::randOver(r, "//\\..aC:", 12);
}
static Str doJoin(bool win, const std::vector<Str>& args) {
    std::vector<std::unique_ptr<vf::Exact>> mem;
    std::vector<StringView> v;
    for (const Str& a : args) {
        mem.emplace_back(new vf::Exact(a));
        v.push_back(mem.back()->view());
    }
    PathFormat f = win ? WindowsPath::format() : PosixPath::format();
    return vf::str(f.joinAndNormalize(ArrayView<const StringView>{v.data(), (u32) v.size()}));
}
static Str show(const std::vector<Str>& args) {
    Str s;
    for (const Str& a : args)
        s += (s.empty() ? "" : " + ") + ("\"" + vf::esc(a) + "\"");
    return s;
}
static bool colonName(const Where& w) {
    for (const Str& n : w.names)
        if (n.find(':') != Str::npos)
            return true;
    return false;
}

VF_WORKLOAD(join, 120000, 4000000) {
    bool win = r.chance(1, 2);
    std::vector<Str> args;
    for (uint32_t n = 1 + r.below(4); n > 0; n--)
        args.push_back(r.chance(1, 12) ? Str() : r.chance(1, 8) ? randRaw(r) : randPath(r, win));
    vf::ctx(show(args));
    Where w = resolve(win, args);
    const Str& last = args.back();
    bool trailing = last.empty() || isSep(win, last.back());
    Str got = doJoin(win, args);
    Str want = spell(win, w, trailing);
    bool allEmpty = true;
    for (const Str& a : args)
        allEmpty = allEmpty && a.empty();
    bool driveOnly = w.drive && !w.rooted && w.names.empty(); // whether "C:" can carry a trailing separator is not stated
    VF_CHECK(got == want || (allEmpty && got == ".") || (driveOnly && got == spell(win, w, false)), "join", "%s joins to %s, expected %s",
             show(args).c_str(), vf::esc(got).c_str(), vf::esc(want).c_str());
    if (!win || !colonName(w)) {
        Where back = resolve(win, {got});
        VF_CHECK(back == w, "join-names", "%s joins to %s, which names another file", show(args).c_str(), vf::esc(got).c_str());
        Str again = doJoin(win, {got});
        VF_CHECK(again == got, "idempotent", "%s normalizes again to %s", vf::esc(got).c_str(), vf::esc(again).c_str());
        vf::Exact g(got);
        VF_CHECK(win ? WindowsPath::isNormalized(g) : PosixPath::isNormalized(g), "isNormalized", "%s", vf::esc(got).c_str());
        size_t ups = 0;
        while (ups < w.names.size() && w.names[ups] == "..")
            ups++;
        vf::maxOf("most leading parents", ups);
    }
    vf::maxOf("longest normalized path", got.size());
    if (args.size() >= 2) {
        vf::Exact a(args[0]), b(args[1]);
        Str two = win ? vf::str(WindowsPath::join(a.view(), b.view())) : vf::str(PosixPath::join(a.view(), b.view()));
        VF_CHECK(two == doJoin(win, {args[0], args[1]}), "join-static", "%s", show(args).c_str());
        PathFormat f = win ? WindowsPath::format() : PosixPath::format();
        VF_CHECK(vf::str(f.join(a.view(), b.view())) == two && vf::str(f.normalize(a.view(), b.view())) == two, "join-format", "%s",
                 show(args).c_str());
    }
    vf::distinct(vf::hashStr(show(args)) + win);
    vf::sample(show(args) + (win ? " (Windows) -> " : " -> ") + got);
}

// Every short string over the characters that matter, exhaustively.
VF_WORKLOAD(exhaustive, 2400, 4200) {
    const char* alpha = "/.aC:\\";
    // idx selects the first four characters; the rest are enumerated here
    Str head;
    uint64_t k = idx;
    for (int i = 0; i < 4; i++, k /= 7)
        if (k % 7)
            head += alpha[k % 7 - 1];
    uint32_t tails = vf::thorough() ? 7 * 7 * 7 : 7 * 7;
    for (uint32_t t = 0; t < tails; t++) {
        Str s = head;
        for (uint32_t q = t; q; q /= 7)
            if (q % 7)
                s += alpha[q % 7 - 1];
        for (bool win : {false, true}) {
            Where w = resolve(win, {s});
            Str got = doJoin(win, {s});
            bool trailing = !s.empty() && isSep(win, s.back());
            bool driveOnly = w.drive && !w.rooted && w.names.empty();
            VF_CHECK(got == spell(win, w, trailing) || (s.empty() && got == "./") || (s.empty() && got == ".\\") ||
                         (driveOnly && got == spell(win, w, false)),
                     "normalize", "\"%s\" normalizes to %s, expected %s", s.c_str(), got.c_str(), spell(win, w, trailing).c_str());
            vf::count("normalizations");
        }
        vf::distinct(vf::hashStr(s));
    }
    vf::evals(tails - 1);
}

template <typename P>
static void splits(const Str& s, bool win) {
    vf::Exact m(s);
    StringView v = m.view();
    const PathFormat f = P::format();
    bool drive = hasDrive(win, s), sepFirst = !s.empty() && isSep(win, s[0]);
    VF_CHECK(P::hasDriveLetter(v) == drive && f.hasDriveLetter(v) == drive, "drive", "%s", vf::esc(s).c_str());
    VF_CHECK(vf::str(P::getDriveLetter(v)) == (drive ? s.substr(0, 2) : Str()), "drive", "%s", vf::esc(s).c_str());
    VF_CHECK(P::isAbsolute(v) == isAbs(win, s) && f.isAbsolute(v) == isAbs(win, s), "isAbsolute", "%s", vf::esc(s).c_str());
    VF_CHECK(f.isRelative(v) == (!s.empty() && !drive && !sepFirst), "isRelative", "%s", vf::esc(s).c_str());
    VF_CHECK(P::endsWithSep(v) == (!s.empty() && isSep(win, s.back())), "endsWithSep", "%s", vf::esc(s).c_str());
    // split
    size_t cut = s.size();
    while (cut > 0 && !isSep(win, s[cut - 1]))
        cut--;
    Str second = s.substr(cut), first = s.substr(0, cut);
    while (!first.empty() && isSep(win, first.back()))
        first.pop_back();
    if (cut > 0 && (first.empty() || (drive && first.size() == 2)))
        first = s.substr(0, first.size() + 1);
    auto sp = P::split(v);
    VF_CHECK(vf::str(sp.first) == first && vf::str(sp.second) == second, "split", "%s splits into %s and %s, expected %s and %s",
             vf::esc(s).c_str(), vf::esc(vf::str(sp.first)).c_str(), vf::esc(vf::str(sp.second)).c_str(), vf::esc(first).c_str(),
             vf::esc(second).c_str());
    // splitFull
    std::vector<Str> want, got;
    size_t i = 0;
    if (isAbs(win, s))
        i = win ? 3 : 1;
    else if (drive)
        i = 2;
    else if (sepFirst)
        i = 1;
    if (i)
        want.push_back(s.substr(0, i));
    bool odd = drive && !isAbs(win, s);
    while (i > 0 && !odd && i < s.size() && isSep(win, s[i]))
        i++;
    while (i < s.size()) {
        size_t j = i;
        while (j < s.size() && !isSep(win, s[j]))
            j++;
        want.push_back(s.substr(i, j - i));
        if (j == s.size())
            break;
        while (j < s.size() && isSep(win, s[j]))
            j++;
        if (j == s.size())
            want.push_back("");
        i = j;
    }
    auto arr = P::splitFull(v);
    for (StringView x : arr)
        got.push_back(vf::str(x));
    VF_CHECK(got == want, "splitFull", "%s splits into %s", vf::esc(s).c_str(), show(got).c_str());
    // splitExt
    size_t base = cut, lead = base;
    while (lead < s.size() && s[lead] == '.')
        lead++;
    size_t dot = s.rfind('.');
    Str ext = dot == Str::npos || dot < lead ? Str() : s.substr(dot);
    auto se = P::splitExt(v);
    VF_CHECK(vf::str(se.first) + vf::str(se.second) == s && vf::str(se.second) == ext, "splitExt", "%s splits into %s and %s",
             vf::esc(s).c_str(), vf::esc(vf::str(se.first)).c_str(), vf::esc(vf::str(se.second)).c_str());
    // from
    Str toPosix = s, toWin = s, keep = s;
    for (char& c : toPosix)
        c = c == '\\' ? '/' : c;
    for (char& c : toWin)
        c = c == '/' ? '\\' : c;
    VF_CHECK(vf::str(PosixPath::from<WindowsPath>(v)) == toPosix && vf::str(PosixPath::from<PosixPath>(v)) == s &&
                 vf::str(WindowsPath::from<PosixPath>(v)) == toWin && vf::str(WindowsPath::from<WindowsPath>(v)) == toWin,
             "from", "%s", vf::esc(s).c_str());
    VF_CHECK(vf::str(PosixPath::from(WindowsPath::format(), v)) == toPosix && vf::str(WindowsPath::from(PosixPath::format(), v)) == toWin &&
                 vf::str(PosixPath::format().from<WindowsPath>(v)) == toPosix,
             "from", "%s", vf::esc(s).c_str());
    VF_CHECK(m.view() == vf::view(keep), "from-altered", "%s", vf::esc(s).c_str());
}

VF_WORKLOAD(split, 120000, 4000000) {
    bool win = r.chance(1, 2);
    Str s = r.chance(1, 2) ? randPath(r, win) : r.chance(1, 8) ? vf::randBytes(r, 20) : randRaw(r);
    vf::ctx(vf::esc(s));
    if (win && hasDrive(win, s) && !isAbs(win, s) && s.size() > 2 && isSep(win, s[2]))
        return;
    win ? splits<WindowsPath>(s, true) : splits<PosixPath>(s, false);
    vf::distinct(vf::hashStr(s) + win);
}

VF_WORKLOAD(relative, 120000, 4000000) {
    bool win = r.chance(1, 2);
    Str a = randPath(r, win), d = r.chance(1, 6) ? a + "/" + randPath(r, false) : randPath(r, win);
    if (isAbs(win, a) != isAbs(win, d))
        (isAbs(win, a) ? d : a).insert(0, win ? "C:/" : "/");
    if (win && hasDrive(win, a) != hasDrive(win, d))
        return;
    if (win && !isAbs(win, a)) { // neither absolute nor relative: not covered
        if (hasDrive(win, a) || hasDrive(win, d) || (!a.empty() && isSep(win, a[0])) || (!d.empty() && isSep(win, d[0])))
            return;
    }
    if (isAbs(win, a) != isAbs(win, d))
        return;
    Where wa = resolve(win, {a}), wd = resolve(win, {d});
    // a folder above the ancestor whose name is unknown can't be named from the ancestor
    size_t upsA = 0, upsD = 0;
    while (upsA < wa.names.size() && wa.names[upsA] == "..")
        upsA++;
    while (upsD < wd.names.size() && wd.names[upsD] == "..")
        upsD++;
    if (upsA > upsD || colonName(wa) || colonName(wd))
        return;
    vf::ctx(vf::esc(a) + " -> " + vf::esc(d));
    vf::Exact ma(a), md(d);
    Str rel = win ? vf::str(WindowsPath::makeRelative(ma, md)) : vf::str(PosixPath::makeRelative(ma, md));
    Where back = resolve(win, {a, rel});
    VF_CHECK(back == wd, "relative", "from %s to %s: %s", vf::esc(a).c_str(), vf::esc(d).c_str(), vf::esc(rel).c_str());
    Str norm = doJoin(win, {rel});
    VF_CHECK(norm == rel, "relative-normal", "from %s to %s: %s is not normalized", vf::esc(a).c_str(), vf::esc(d).c_str(), vf::esc(rel).c_str());
    if (!resolve(win, {rel}).rooted || !wd.names.empty())
        VF_CHECK(isSep(win, rel.back()) == (!d.empty() && isSep(win, d.back())), "relative-trailing", "from %s to %s: %s", vf::esc(a).c_str(),
             vf::esc(d).c_str(), vf::esc(rel).c_str());
    if (wa.drive == wd.drive)
        VF_CHECK(!isAbs(win, rel), "relative-absolute", "from %s to %s: %s", vf::esc(a).c_str(), vf::esc(d).c_str(), vf::esc(rel).c_str());
    Str rejoined = doJoin(win, {a, rel});
    VF_CHECK(resolve(win, {rejoined}) == wd, "relative-rejoin", "%s + %s = %s", vf::esc(a).c_str(), vf::esc(rel).c_str(), vf::esc(rejoined).c_str());
    vf::distinct(vf::hashStr(a + "\n" + d) + win);
    vf::count("relative paths");
}

// Where a path exists, its normalized form is the same file according to the kernel.
VF_WORKLOAD_SERIAL(kernel, 6, 60) {
    Str root = vf::scratch() + "/tree";
    mkdir(root.c_str(), 0777);
    std::vector<Str> dirs = {root};
    static const char* const names[] = {"a", "b", "a.b", "...", "\xc3\xa9"};
    for (int i = 0; i < 12; i++) {
        Str d = dirs[r.below(dirs.size())] + "/" + names[r.below(5)];
        if (mkdir(d.c_str(), 0777) == 0)
            dirs.push_back(d);
    }
    auto same = [&](const Str& p, const Str& q) {
        struct stat x, y;
        if (stat(p.c_str(), &x) != 0)
            return true;
        vf::count("existing files compared");
        return stat(q.c_str(), &y) == 0 && x.st_ino == y.st_ino && x.st_dev == y.st_dev;
    };
    for (int i = 0; i < 4000; i++) {
        const Str& base = dirs[r.below(dirs.size())];
        const Str& target = dirs[r.below(dirs.size())];
        Str expr = base;
        for (uint32_t n = r.below(8); n > 0; n--)
            expr += Str(1 + r.below(2), '/') + (r.chance(1, 2) ? Str("..") : r.chance(1, 4) ? Str(".") : Str(names[r.below(5)]));
        if (r.chance(1, 4))
            expr += "/";
        Str n = doJoin(false, {expr});
        VF_CHECK(same(expr, n), "kernel", "%s normalizes to %s", expr.c_str(), n.c_str());
        Str rel = vf::str(PosixPath::makeRelative(vf::view(base), vf::view(target)));
        VF_CHECK(same(target, base + "/" + rel), "kernel-relative", "%s to %s: %s", base.c_str(), target.c_str(), rel.c_str());
        vf::distinct(vf::hashStr(expr.substr(root.size())));
    }
    vf::evals(3999);
}

// Paths handed to the Windows API: UTF-16, backslashes, long-path prefix, terminated.
VF_WORKLOAD(wide, 20000, 400000) {
    Str s = r.chance(1, 2) ? randPath(r, true) : vf::randUtf8(r, 40);
    if (r.chance(1, 3))
        s = "C:\\" + s;
    if (s.find('\0') != Str::npos)
        return;
    vf::ctx(vf::esc(s));
    bool ext = r.chance(1, 2);
    vf::Exact m(s);
    WString w = win32PathArg(m, ext);
    std::u16string want;
    if (ext && isAbs(true, s))
        want = u"\\\\?\\";
    for (size_t i = 0; i < s.size();) {
        unsigned char a = s[i];
        uint32_t n = a < 0x80 ? 1 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4, c = n == 1 ? a : a & (0x7F >> n);
        for (uint32_t k = 1; k < n; k++)
            c = c << 6 | (s[i + k] & 63);
        i += n;
        if (c == '/')
            c = '\\';
        if (c >= 0x10000) {
            want += (char16_t)(0xD800 + ((c - 0x10000) >> 10));
            want += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF));
        } else
            want += (char16_t) c;
    }
    want += (char16_t) 0;
    const char16_t* p = (const char16_t*) (const void*) w.units;
    VF_CHECK(w.numUnits == want.size(), "wide-length", "%u units, expected %zu", (unsigned) w.numUnits,
             want.size());
    for (size_t i = 0; i < want.size() && i < w.numUnits; i++)
        VF_CHECK(p[i] == want[i], "wide", "unit %zu is %04x, expected %04x", i, p[i], want[i]);
    vf::distinct(vf::hashStr(s));
}

VF_MAIN()
