// FileLocationMap against a scan of the text from its start, at every offset.
#include "plyvf.h"
#include <ply-runtime/io/text/FileLocationMap.h>
#include <ply-runtime/string/TextEncoding.h>
using namespace ply;

struct Loc {
    u32 line, intoLine, column, intoColumn;
};

// One entry per byte, and one for the end.
static std::vector<Loc> scan(const vf::Str& s) {
    std::vector<Loc> out;
    u32 line = 1, col = 1, lineStart = 0;
    u32 i = 0;
    while (i < s.size()) {
        DecodeResult d = UTF8::decodePoint(StringView{s.data() + i, (u32)(s.size() - i)});
        u32 n = d.numBytes;
        for (u32 k = 0; k < n; k++)
            out.push_back({line, i + k - lineStart, col, k});
        i += n;
        if (d.point == '\n') {
            line++;
            col = 1;
            lineStart = i;
        } else if (d.point == '\t') {
            col = (col / 4 + 1) * 4;
        } else if (d.point != '\r') {
            col++;
        }
    }
    out.push_back({line, i - lineStart, col, 0});
    return out;
}

static vf::Str text(vf::Rng& r, u32 n) {
    static const char* wide[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\x9f\xbf", "\xc2\x80", "\xf4\x8f\xbf\xbf"};
    static const char* bad[] = {"\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xff", "\xfe", "\xed\xa0\x80", "\xc0\x80", "\xf8\x88\x80\x80\x80", ""};
    vf::Str s;
    u32 kind = r.below(9);
    u32 lineLen = kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 100000 : 1 + r.below(r.chance(1, 2) ? 100 : 700);
    while (s.size() < n) {
        u32 c = r.below(100);
        if (r.below(lineLen) == 0)
            s += r.chance(1, 4) ? "\r\n" : "\n";
        else if (kind == 3)
            s += wide[r.below(6)];
        else if (kind == 4)
            s += c < 50 ? wide[r.below(6)] : "x";
        else if (kind == 5)
            s += c < 40 ? bad[r.below(10)] : c < 60 ? wide[r.below(6)] : "y";
        else if (kind == 6)
            s += (char) r.u32();
        else if (kind == 7)
            s += c < 30 ? "\t" : "z";
        else
            s += c < 4 ? '\t' : c < 6 ? '\r' : c < 8 ? '\0' : (char) (32 + r.below(95));
        if (r.chance(1, 60))
            s += wide[r.below(6)];
    }
    return s;
}

static bool same(const FileLocation& a, const Loc& b) {
    return a.lineNumber == b.line && a.numBytesIntoLine == b.intoLine && a.columnNumber == b.column && a.numBytesIntoColumn == b.intoColumn;
}

static bool check(const vf::Str& s, const vf::Str& note, vf::Rng& r, bool every) {
    vf::Exact e{s};
    FileLocationMap map = FileLocationMap::fromView(e.view());
    auto want = scan(s);
    for (u32 i = 0; i <= s.size(); i++) {
        if (!every && !r.chance(1, 20) && (i & 255) > 4 && (i & 255) < 251 && i + 3 < s.size())
            continue;
        FileLocation got = map.getFileLocation(i);
        VF_CHECKR(same(got, want[i]), false, "location",
                  "%s, %zu bytes, offset %u: line %u +%u, column %u +%u; expected line %u +%u, column %u +%u", note.c_str(), s.size(), i,
                  got.lineNumber, got.numBytesIntoLine, (u32) got.columnNumber, (u32) got.numBytesIntoColumn, want[i].line,
                  want[i].intoLine, want[i].column, want[i].intoColumn);
        vf::evals(1);
        if (r.chance(1, 50)) {
            vf::Str f = vf::str(map.formatFileLocation(i));
            VF_CHECKR(f == vf::fmt("(%u, %u)", want[i].line, want[i].column), false, "location-text", "offset %u is written %s", i,
                      f.c_str());
        }
    }
    return true;
}

VF_WORKLOAD(any, 200, 2000) {
    u32 n = r.chance(1, 6) ? r.below(4) : r.chance(1, 3) ? 256 * (1 + r.below(6)) - 3 + r.below(7) : r.size(vf::thorough() ? 20000 : 4000);
    vf::Str s = text(r, n);
    if (r.chance(1, 3))
        s.resize(std::min<size_t>(s.size(), n)); // may end in the middle of a character
    vf::ctx(s.substr(0, 400));
    check(s, "any text", r, true);
    vf::distinct(vf::hashStr(s));
}

// Characters of every width, line ends and tabs at every distance from the boundary of a chunk.
VF_WORKLOAD(boundary, 40, 160) {
    static const char* what[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n", "\r\n", "\t", "\t\xe2\x82\xac\n", "\xe2\x82", "\n\n", "\xf0\x9f"};
    u32 chunk = 256 * (1 + idx / 10 % 4);
    const char* w = what[idx % 10];
    for (u32 back = 0; back <= 6; back++)
        for (u32 after = 0; after < 4; after++) {
            vf::Str s;
            while (s.size() < chunk - back)
                s += r.below(40) == 0 ? '\n' : r.below(20) == 0 ? '\t' : 'a';
            s += w;
            for (u32 i = 0; i < after * 3; i++)
                s += "b\n\t"[r.below(3)];
            if (after == 3)
                s += vf::Str(300, 'c');
            vf::ctx(vf::fmt("chunk %u, %s %u before it, %u after", chunk, vf::esc(w).c_str(), back, after));
            if (!check(s, "boundary", r, true))
                return;
            vf::distinct(vf::hashStr(s));
        }
}

VF_WORKLOAD(large, 4, 40) {
    vf::Str s = text(r, 100000 + r.below(vf::thorough() ? 4000000 : 400000));
    check(s, "large", r, false);
    vf::maxOf("bytes", s.size());
    vf::distinct(vf::hashStr(s));
}

VF_MAIN()
