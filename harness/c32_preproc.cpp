// C32: reading tokens from source text. Monitors compare the stream of tokens with the tokens the text was built from, and check
// on arbitrary bytes that tokens and whitespace cover the text in order.
#include "plyvf.h"
#include <ply-cpp/ParseAPI.h>
#include <ply-cpp/Preprocessor.h>
#include <ply-cpp/ErrorFormatting.h>
#include <functional>
#include <map>

using namespace ply;
using namespace vf;
using cpp::Token;

namespace {

struct Got {
    Token::Type type;
    Str text;
    int64_t loc;
    const char* ptr;
};

struct Err {
    cpp::Preprocessor::Error::Type type;
    int64_t loc, other;
    Str msg;
};

struct Session {
    cpp::PPVisitedFiles vf;
    cpp::Preprocessor pp;
    std::vector<Err> errs;
    std::vector<Str> includes;
    const char* base = nullptr;
    u32 len = 0;
    Session(const Str& src) {
        pp.visitedFiles = &vf;
        auto& f = vf.sourceFiles.append();
        f.contents = String{view(src)};
        f.fileLocMap = FileLocationMap::fromView(f.contents);
        auto& chain = vf.includeChains.append();
        chain.isMacroExpansion = 0;
        chain.fileOrExpIdx = 0;
        auto& item = pp.stack.append();
        item.includeChainIdx = 0;
        item.vins = ViewInStream{f.contents};
        base = f.contents.view().bytes;
        len = f.contents.view().numBytes;
        pp.linearLocAtEndOfStackTop = len;
        cpp::PPVisitedFiles::LocationMapTraits::Item loc;
        loc.linearLoc = 0;
        loc.includeChainIdx = 0;
        loc.offset = 0;
        vf.locationMap.insert(std::move(loc));
        pp.errorHandler = [this](Owned<cpp::BaseError>&& e) {
            auto* pe = static_cast<cpp::Preprocessor::Error*>(e.get());
            errs.push_back({pe->type, pe->linearLoc, pe->otherLoc, Str()});
            if (macroDepth() == 0) {
                MemOutStream mout;
                e->writeMessage(&mout, &this->vf);
                errs.back().msg = str(mout.moveToString());
            }
        };
    }
    u32 macroDepth() const {
        return pp.stack.numItems() - 1;
    }
    Got read() {
        Token t = cpp::readToken(&pp);
        return {t.type, str(t.identifier), t.linearLoc, t.identifier.bytes};
    }
    bool inSource(const Got& g) const {
        return g.ptr >= base && g.ptr + g.text.size() <= base + len;
    }
};

bool isWs(char c) {
    return c == ' ' || c == '\t' || c == '\r' || c == '\n';
}

//----------------------------------------------------------
struct Item {
    Token::Type type;
    Str text;
    size_t pos; // where it is in the text
    bool macroToken = false; // text from a macro definition
    std::vector<Str> args;
    bool inc = false, first = false;
};

const struct {
    const char* text;
    Token::Type type;
} Puncs[] = {
    {"{", Token::OpenCurly}, {"}", Token::CloseCurly}, {"(", Token::OpenParen}, {")", Token::CloseParen}, {"<", Token::OpenAngle}, {">", Token::CloseAngle}, {"<=", Token::LessThanOrEqual},
    {">=", Token::GreaterThanOrEqual}, {"[", Token::OpenSquare}, {"]", Token::CloseSquare}, {";", Token::Semicolon}, {":", Token::SingleColon}, {"::", Token::DoubleColon}, {"=", Token::SingleEqual},
    {"==", Token::DoubleEqual}, {"!=", Token::NotEqual}, {"+=", Token::PlusEqual}, {"-=", Token::MinusEqual}, {"->", Token::Arrow}, {"*=", Token::StarEqual}, {"/=", Token::SlashEqual}, {",", Token::Comma},
    {"?", Token::QuestionMark}, {"/", Token::ForwardSlash}, {"*", Token::Star}, {"%", Token::Percent}, {"&", Token::SingleAmpersand}, {"&&", Token::DoubleAmpersand}, {"|", Token::SingleVerticalBar},
    {"||", Token::DoubleVerticalBar}, {"+", Token::SinglePlus}, {"++", Token::DoublePlus}, {"-", Token::SingleMinus}, {"--", Token::DoubleMinus}, {"<<", Token::LeftShift}, {">>", Token::RightShift},
    {".", Token::Dot}, {"~", Token::Tilde}, {"^", Token::Caret}, {"!", Token::Bang}, {"...", Token::Ellipsis},
};
const u32 NumPuncs = sizeof(Puncs) / sizeof(Puncs[0]);
bool isPunc(const Str& s) {
    for (auto& p : Puncs)
        if (s == p.text)
            return true;
    return s == "//" || s == "/*";
}
bool idChar(char c) {
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$' || (c & 0x80);
}

// Could text b, written right after a, change how a is read?
bool needsGap(const Item& a, const Str& b) {
    char x = a.text.back(), y = b[0];
    if (a.type == Token::Identifier)
        return idChar(y) || y == '"';
    if (a.type == Token::NumericLiteral)
        return idChar(y) || y == '.' || ((x == 'e' || x == 'E' || x == 'p') && (y == '+' || y == '-'));
    if (a.type == Token::StringLiteral || a.type == Token::CStyleComment || a.type == Token::LineComment || a.type == Token::Directive)
        return false;
    if (a.text == ".")
        return true;
    return isPunc(Str(1, x) + y) || isPunc(a.text + y) || (a.text == "." && y >= '0' && y <= '9');
}

Str identifier(Rng& r) {
    static const char* const fixed[] = {"R", "L", "u8", "x", "_", "$", "int", "R2", "operator", "e", "f", "x\xc3\xa9t", "\xe2\x82\xac"};
    if (r.chance(1, 3))
        return fixed[r.below(13)];
    Str s;
    size_t n = 1 + r.below(r.chance(1, 20) ? 40 : 6);
    static const char A[] = "abcXYZ_019$RLuf";
    for (size_t i = 0; i < n; i++)
        s += A[r.below(i ? 15 : 7)];
    return s;
}

Str number(Rng& r) {
    static const char* const suffixes[] = {"", "", "", "f", "F", "U", "L", "UL", "LL", "ULL", "u", "l", "ul", "ll", "ull", "uL", "Ull"};
    Str s;
    switch (r.below(6)) {
        case 0:
            s = "0x";
            for (size_t i = 0, n = 1 + r.below(8); i < n; i++)
                s += "0123456789abcdefABCDEF"[r.below(22)];
            if (s.back() == 'f' || s.back() == 'F')
                s += '0';
            return s + suffixes[r.chance(1, 2) ? 0 : 5 + r.below(12)];
        case 1:
            s = "0";
            return s + suffixes[r.chance(1, 2) ? 0 : 5 + r.below(12)];
        case 2:
            return r.pick(std::vector<Str>{"0.5", "0.0f", "3.25f", "12.", "1e5", "1.5e-3", "2E+10", "00", "017", "0.", "1.f", "9007199254740993", "18446744073709551615ULL", "123456789012345678901234567890.0"});
        default:
            s = std::to_string(r.chance(1, 3) ? r.below(1000000) : 1 + r.below(99));
            return s + suffixes[r.below(17)];
    }
}

Str literal(Rng& r) {
    Str s;
    char q = r.chance(1, 4) ? '\'' : '"';
    if (r.chance(1, 5)) {
        // raw string
        Str delim;
        if (r.chance(1, 2))
            for (size_t i = 0, n = 1 + r.below(4); i < n; i++)
                delim += r.pick(std::vector<Str>{"a", "b", "-", "\xc3\xa9", "x"});
        s = "R\"" + delim + "(";
        for (size_t i = 0, n = r.below(8); i < n; i++) {
            Str p = r.pick(std::vector<Str>{")", "(", "\"", "\\", "\n", "//", "#if", "x", ")a", ")" + delim, "\")", "/*", "))"});
            s += p;
        }
        // The content must not contain the terminator itself
        Str term = ")" + delim + "\"", body = s.substr(3 + delim.size());
        size_t at = (body + term).find(term);
        return "R\"" + delim + "(" + body.substr(0, at) + term;
    }
    if (q == '"' && r.chance(1, 6))
        s = r.pick(std::vector<Str>{"L", "u8", "u", "U", "Rx", "R2", "RR", "xR_", "Re"});
    s += q;
    for (size_t i = 0, n = r.below(7); i < n; i++) {
        Str p = r.pick(std::vector<Str>{"a", "\\n", "\\\"", "\\'", "\\\\", " ", "//", "/*", "#", "\xc3\xa9", q == '"' ? "'" : "\"", "{", ")", "\\x41", "\\\n"});
        s += p;
    }
    return s + q;
}

struct Macro {
    Str name;
    bool args;
    std::vector<Item> body; // tokens of its definition
    Str text;
};

struct Builder {
    Rng& r;
    Str text;
    std::vector<Item> items;
    std::vector<Macro> macros;
    bool lineStart = true;
    size_t macroEnd = (size_t) -1;
    u32 maxMacro; // macros with a lower index may be used
    Builder(Rng& r) : r(r) {
    }
    void gap(const Str& next) {
        bool need = !items.empty() && !items.back().macroToken && items.back().pos + items.back().text.size() == text.size() && needsGap(items.back(), next);
        if (text.size() == macroEnd)
            need = true;
        static const char* const ws[] = {" ", "  ", "\t", "\n", "\r\n", "\n\n  ", " \n\t", "    "};
        if (need || r.chance(1, 2))
            addWs(ws[r.below(8)]);
    }
    void addWs(const Str& w) {
        text += w;
        if (w.find('\n') != Str::npos)
            lineStart = true;
    }
    void put(Token::Type type, const Str& s) {
        gap(s);
        Item it{type, s, text.size()};
        text += s;
        items.push_back(it);
        lineStart = type == Token::Directive || type == Token::LineComment ? true : type == Token::CStyleComment ? lineStart : false;
    }
    void putDirective() {
        if (!lineStart)
            addWs(r.chance(1, 3) ? "\r\n" : "\n");
        static const char* const lines[] = {"include <a/b.h>", "include \"x.inl\" //@@ply", "pragma once", "if defined(A) && B", "ifdef X", "ifndef X_H", "else", "elif 1", "endif // don't \"", "error don't { stop",
                                            "undef A", "import <x>", "define A", "define A(x) x##x \"", "define LONG a { \\\n   b } \\\r\n c", "", "  include <spaced>", "\tpragma x", "if A \\\n  || B ' \\\n || {", "include", "define Q '"};
        Str s = "#", l = lines[r.below(21)];
        s += l;
        if (!l.empty() && r.chance(1, 4))
            s = "#" + Str(r.below(3), ' ') + l;
        s += r.chance(1, 4) ? "\r\n" : "\n";
        bool inc = l.find("include") != Str::npos;
        put(Token::Directive, s);
        items.back().inc = inc;
    }
    void putMacro(u32 m);
    void one(bool directives, bool inMacro) {
        u32 k = r.below(20);
        if (k < 5)
            put(Token::Identifier, identifier(r));
        else if (k < 7)
            put(Token::NumericLiteral, number(r));
        else if (k < 8)
            put(Token::StringLiteral, literal(r));
        else if (k < 9 && directives)
            putDirective();
        else if (k < 10 && !inMacro) {
            Str s = "//";
            for (size_t i = 0, n = r.below(5); i < n; i++)
                s += r.pick(std::vector<Str>{" ", "x", "\"", "/*", "*/", "#", "'", "\xc3\xa9", "\r"});
            put(Token::LineComment, s + "\n");
        } else if (k < 11) {
            Str s = "/*";
            for (size_t i = 0, n = r.below(6); i < n; i++)
                s += r.pick(std::vector<Str>{" ", "x", "\"", "/", "*", "**", "\n", "/*", "//", "'", "\xc3\xa9"});
            size_t at = (s.substr(2) + "*/").find("*/");
            s = "/*" + (s.substr(2) + "*/").substr(0, at) + "*/";
            put(Token::CStyleComment, s);
        } else if (k < 14 && maxMacro > 0)
            putMacro(r.below(maxMacro));
        else {
            auto& p = Puncs[r.below(NumPuncs)];
            put(p.type, p.text);
        }
        // names of macros are not used as plain names unless their arguments are missing
        Item& it = items.back();
        if (it.type == Token::Identifier && !it.macroToken)
            for (auto& m : macros)
                if (m.name == it.text) {
                    // Would be expanded: turn it into another name
                    it.text = Str(it.text.size(), 'q');
                    text.replace(it.pos, it.text.size(), it.text);
                }
    }
};

void Builder::putMacro(u32 mi) {
    const Macro& m = macros[mi];
    gap(m.name);
    Item it{Token::Macro, m.name, text.size()};
    text += m.name;
    lineStart = false;
    bool expands = true;
    if (m.args) {
        if (r.chance(1, 4)) {
            // not followed by arguments: a plain name
            it.type = Token::Identifier;
            items.push_back(it);
            put(Token::Semicolon, ";");
            return;
        }
        addWs(r.pick(std::vector<Str>{"", "", " ", "\n"}));
        text += "(";
        size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; i++) {
            Str a = r.pick(std::vector<Str>{"", "a", " b ", "f(x, y)", "(,)", "x / y", "c /* , ) */", "T<int>", "1 // ,)\n", "\n z"});
            if (i)
                text += ",";
            text += a;
            it.args.push_back(a);
        }
        text += ")";
        lineStart = false;
    }
    (void) expands;
    macroEnd = text.size();
    items.push_back(it);
    bool first = true;
    for (Item b : m.body) {
        b.macroToken = true;
        b.first = first;
        first = false;
        items.push_back(b);
    }
}

void makeMacros(Builder& b) {
    static const char* const names[] = {"EMPTY", "VALUE", "FN", "NEST", "M5", "PLY_X"};
    u32 n = b.r.below(7);
    for (u32 i = 0; i < n; i++) {
        Builder body(b.r);
        body.macros = b.macros;
        body.maxMacro = i;
        body.lineStart = false;
        u32 k = b.r.chance(1, 3) ? 0 : 1 + b.r.below(4);
        for (u32 j = 0; j < k; j++)
            body.one(false, true);
        Macro m{names[i], b.r.chance(1, 3), body.items, body.text};
        b.macros.push_back(m);
    }
    // A macro defined earlier can't come to contain a name that is defined later, except as generated
    for (u32 i = 0; i < n; i++)
        for (auto& it : b.macros[i].body)
            if (it.type == Token::Identifier)
                for (u32 j = 0; j < n; j++)
                    VF_CHECK(it.text != b.macros[j].name || b.macros[j].args, "harness", "macro name in definition");
    b.maxMacro = n;
}

Str describe(const Got& g) {
    return vf::fmt("%d '%s' @%lld", (int) g.type, esc(g.text).c_str(), (long long) g.loc);
}

VF_WORKLOAD(built, 30000, 600000) {
    Builder b(r);
    b.maxMacro = 0;
    makeMacros(b);
    u32 n = r.below(r.chance(1, 50) ? 300 : 25);
    for (u32 i = 0; i < n; i++)
        b.one(true, false);
    if (r.chance(1, 2))
        b.addWs("\n");
    Session s(b.text);
    std::vector<Str> includes;
    struct IncCtx {
        std::vector<Str>* v;
    } ctx{&includes};
    s.pp.includeCallback = {[](IncCtx* c, StringView d) { c->v->push_back(str(d)); }, &ctx};
    if (r.chance(1, 3))
        for (auto& m : b.macros)
            cpp::addPPDef(&s.pp, view(m.name), "replaced later", !m.args);
    for (auto& m : b.macros)
        cpp::addPPDef(&s.pp, view(m.name), view(m.text), m.args);
    Got lastMacro{};
    count("tokens", b.items.size());
    std::vector<Str> expInc;
    for (size_t i = 0; i < b.items.size(); i++) {
        const Item& e = b.items[i];
        Got g = s.read();
        Str at = vf::fmt("token %zu of %s: got %s, expected %d '%s' at %zu", i, esc(b.text).substr(0, 600).c_str(), describe(g).c_str(), (int) e.type, esc(e.text).c_str(), e.pos);
        VF_CHECKR((g.type == e.type), , vf::fmt("kind-%d", (int) e.type), "%s", at.c_str());
        VF_CHECKR((g.text == e.text), , vf::fmt("text-%d", (int) e.type), "%s", at.c_str());
        if (!e.macroToken) {
            VF_CHECKR((g.ptr == s.base + e.pos), , "position", "%s", at.c_str());
            // the linear location expands to the place in the file
            if (e.type != Token::Macro) {
                cpp::ExpandedFileLocation loc = cpp::expandFileLocation(&s.vf, g.loc);
                u32 line = 1;
                size_t ls = 0;
                for (size_t k = 0; k < e.pos; k++)
                    if (b.text[k] == '\n') {
                        line++;
                        ls = k + 1;
                    }
                VF_CHECKR((loc.srcFile == &s.vf.sourceFiles[0] && loc.fileLoc.lineNumber == line && loc.fileLoc.numBytesIntoLine == e.pos - ls), , "location",
                          "%s: line %u byte %u, expected line %u byte %zu", at.c_str(), loc.fileLoc.lineNumber, loc.fileLoc.numBytesIntoLine, line, e.pos - ls);
            }
        }
        if (e.macroToken && e.type != Token::Macro) {
            // the linear location names a place in the definition, also after definitions used inside it
            auto it = s.vf.locationMap.findLastLessThan((cpp::LinearLocation)(g.loc + 1));
            auto& mi = it.getItem();
            StringView def = s.vf.getContents(mi.includeChainIdx);
            size_t ofs = (size_t)(mi.offset + (g.loc - mi.linearLoc));
            VF_CHECKR((s.vf.includeChains[mi.includeChainIdx].isMacroExpansion && ofs == e.pos && ofs + e.text.size() <= def.numBytes && memcmp(def.bytes + ofs, e.text.data(), e.text.size()) == 0), , "definition-location",
                      "%s: byte %zu of '%s', expected byte %zu", at.c_str(), ofs, esc(str(def)).c_str(), e.pos);
            count("definition-locations", 1);
        }
        if (e.first && i > 0 && b.items[i - 1].type == Token::Macro)
            VF_CHECKR((g.loc == lastMacro.loc + (int64_t) e.pos), , "expansion-location", "%s, macro at %lld", at.c_str(), (long long) lastMacro.loc);
        if (e.type == Token::Macro) {
            lastMacro = g;
            count("expansions", 1);
            VF_CHECKR((s.pp.macroArgs.numItems() == e.args.size()), , "argument-count", "%s: %u", at.c_str(), s.pp.macroArgs.numItems());
            for (size_t k = 0; k < e.args.size(); k++) {
                auto& a = s.pp.macroArgs[(u32) k];
                VF_CHECKR((a.linearLoc - g.loc == a.identifier.bytes - g.ptr), , "argument-location", "%s: argument %zu at %lld", at.c_str(), k, (long long) a.linearLoc);
                VF_CHECKR((str(s.pp.macroArgs[(u32) k].identifier) == e.args[k] && s.pp.macroArgs[(u32) k].type == Token::MacroArgument), , "argument", "%s: %zu '%s' not '%s'", at.c_str(), k,
                          esc(str(s.pp.macroArgs[(u32) k].identifier)).c_str(), esc(e.args[k]).c_str());
            }
        }
        if (e.inc)
            expInc.push_back(e.text);
    }
    Got g = s.read();
    VF_CHECKR((g.type == Token::EndOfFile), , "end", "%s after the end of %s", describe(g).c_str(), esc(b.text).substr(0, 600).c_str());
    VF_CHECKR((s.errs.empty()), , vf::fmt("error-%d", s.errs.empty() ? 0 : (int) s.errs[0].type), "%s from %s", s.errs[0].msg.c_str(), esc(b.text).substr(0, 600).c_str());
    VF_CHECK((includes == expInc), "includes", "%zu includes, expected %zu in %s", includes.size(), expInc.size(), esc(b.text).substr(0, 600).c_str());
    g = s.read();
    VF_CHECK((g.type == Token::EndOfFile), "end", "%s after the end of %s", describe(g).c_str(), esc(b.text).substr(0, 600).c_str());
    evals(1);
    distinct(hashStr(b.text));
    maxOf("maxDepth", 1);
    if (idx < 20)
        sample(esc(b.text).substr(0, 200).c_str());
}

// Any bytes: tokens come in order, and only whitespace or reported text is between them
VF_WORKLOAD(bytes, 30000, 600000) {
    static const char* const parts[] = {"\"", "'", "R\"", "R\"(", ")\"", "R\"x(", "/*", "*/", "//", "/", "\n", "\r", " ", "#", "#include", "#define", "\\", "\\\n", "0x", "0", "1.", "1e", ".", "..", "...", "->", "a", "FN", "FN(", "(", ")", ",",
                                        "EMPTY", "VALUE", "\xff", "\x80", "\x01", "@", "`", "u8\"", "<", ">", ">>", ">=", "::", "#if", "\0", "-", "+5", "f", "LL", "# ", "#@", "#zz", "\t", "\xc3\xa9"};
    Str src;
    if (r.chance(1, 4))
        src = randBytes(r, 60);
    else
        for (size_t i = 0, n = r.below(r.chance(1, 20) ? 200 : 20); i < n; i++)
            src += r.chance(1, 200) ? Str(1, '\0') : Str(parts[r.below(sizeof(parts) / sizeof(parts[0]))]);
    Session s(src);
    bool macros = r.chance(1, 2);
    if (macros) {
        cpp::addPPDef(&s.pp, "EMPTY", "");
        cpp::addPPDef(&s.pp, "VALUE", r.chance(1, 2) ? "1 + 2" : r.chance(1, 2) ? "VALUE x" : "EMPTY \"");
        cpp::addPPDef(&s.pp, "FN", r.chance(1, 2) ? "g FN" : "g", true);
    }
    s.pp.tokenizeCloseAnglesOnly = r.chance(1, 8);
    size_t end = 0, errs = 0;
    bool macroErr = false;
    for (size_t n = 0;; n++) {
        VF_CHECKR((n < src.size() * 20 + 1000), , "endless", "more than %zu tokens from %s", n, esc(src).c_str());
        Got g = s.read();
        size_t newErrs = s.errs.size() - errs;
        errs = s.errs.size();
        for (size_t i = errs - newErrs; i < errs; i++) {
            count("errors", 1);
            VF_CHECKR((s.errs[i].loc >= 0), , "error-location", "error at %lld in %s", (long long) s.errs[i].loc, esc(src).c_str());
            VF_CHECKR((s.errs[i].loc <= (int64_t) src.size() + (macros ? 100 * (int64_t) src.size() : 0)), , "error-location", "error at %lld in %s", (long long) s.errs[i].loc, esc(src).c_str());
            if (s.errs[i].msg.empty())
                macroErr = true;
        }
        if (g.type == Token::EndOfFile) {
            bool ws = true;
            for (size_t k = end; k < src.size(); k++)
                ws = ws && isWs(src[k]);
            VF_CHECK((ws || newErrs || macros), "lost", "text after byte %zu of %s is neither read nor reported", end, esc(src).c_str());
            break;
        }
        VF_CHECKR((g.type != Token::Invalid && !g.text.empty()), , "invalid-token", "%s from %s", describe(g).c_str(), esc(src).c_str());
        if (!s.inSource(g))
            continue; // from a macro's definition
        VF_CHECKR((!s.pp.tokenizeCloseAnglesOnly || (g.type != Token::RightShift && g.type != Token::GreaterThanOrEqual)), , "close-angles", "%s in %s", describe(g).c_str(), esc(src).c_str());
        size_t pos = (size_t)(g.ptr - s.base);
        VF_CHECKR((pos >= end), , "order", "%s at %zu after %zu in %s", describe(g).c_str(), pos, end, esc(src).c_str());
        if (!macros) {
            VF_CHECKR((g.loc == (int64_t) pos), , "linear-location", "%s at %zu in %s", describe(g).c_str(), pos, esc(src).c_str());
            bool ws = true;
            for (size_t k = end; k < pos; k++)
                ws = ws && isWs(src[k]);
            VF_CHECKR((ws || newErrs), , "lost", "text between %zu and %zu of %s is neither read nor reported", end, pos, esc(src).c_str());
        }
        end = pos + g.text.size();
        // the text fits the kind
        bool ok = true;
        switch (g.type) {
            case Token::Identifier:
            case Token::Macro:
                for (char c : g.text)
                    ok = ok && idChar(c);
                ok = ok && !(g.text[0] >= '0' && g.text[0] <= '9');
                break;
            case Token::NumericLiteral:
                ok = g.text[0] >= '0' && g.text[0] <= '9';
                break;
            case Token::StringLiteral:
                ok = g.text.size() >= 2 && (g.text.back() == '"' || g.text.back() == '\'');
                break;
            case Token::LineComment:
                ok = g.text.compare(0, 2, "//") == 0;
                break;
            case Token::CStyleComment:
                ok = g.text.size() >= 4 && g.text.compare(0, 2, "/*") == 0 && g.text.substr(g.text.size() - 2) == "*/" && g.text.substr(2).find("*/") == g.text.size() - 4;
                break;
            case Token::Directive:
                ok = g.text[0] == '#';
                break;
            default:
                ok = false;
                for (auto& p : Puncs)
                    if (p.type == g.type)
                        ok = g.text == p.text;
        }
        VF_CHECKR(ok, , "kind", "%s from %s", describe(g).c_str(), esc(src).c_str());
        count("tokens", 1);
    }
    VF_CHECK((cpp::readToken(&s.pp).type == Token::EndOfFile), "end", "tokens after the end of %s", esc(src).c_str());
    (void) macroErr;
    evals(1);
    distinct(hashStr(src));
}

// Each kind of malformed text gives its own error, located where it is
VF_WORKLOAD(malformed, 6000, 60000) {
    using E = cpp::Preprocessor::Error;
    Builder b(r);
    b.maxMacro = 0;
    for (size_t i = 0, n = r.below(8); i < n; i++)
        b.one(true, false);
    b.addWs("\n");
    size_t at = b.text.size();
    Str bad;
    E::Type type;
    size_t off = 0; // where the error is reported, relative to at
    long long other = -1;
    Str tail = r.pick(std::vector<Str>{"", "x", " y;\n", "\xc3\xa9\n"});
    bool rest = false;
    switch (r.below(9)) {
        case 0:
            bad = "/* a" + tail;
            type = E::EOFInComment;
            other = 0;
            off = bad.size();
            break;
        case 1:
            bad = "\"a" + tail;
            type = E::EOFInStringLiteral;
            other = 0;
            off = bad.size();
            break;
        case 2:
            bad = "'a" + tail + "\\";
            type = E::EOFInStringLiteral;
            other = 0;
            off = bad.size();
            break;
        case 3:
            bad = "R\"ab(x)ab" + tail;
            type = E::EOFInStringLiteral;
            other = 0;
            off = bad.size();
            break;
        case 4:
            bad = "R\"ab";
            type = E::EOFInRawStringDelimiter;
            other = 0;
            off = bad.size();
            break;
        case 5:
            bad = "#zork " + tail + "\n";
            type = E::InvalidDirective;
            off = 1;
            rest = true;
            break;
        case 6:
            bad = "#@ " + tail + "\n";
            type = E::InvalidDirective;
            off = 1;
            rest = true;
            break;
        case 7:
            bad = r.pick(std::vector<Str>{"a #", "a /*c*/ #", "a/**//* */#", "a /*\n*/ #", "/**/ ; #", "a \"\" #", "/*\n*/ a\t#", "\n 1 'x' /***/#"});
            type = E::DirectiveNotAtStartOfLine;
            off = bad.size() - 1;
            rest = true;
            break;
        default:
            bad = r.pick(std::vector<Str>{"@", "`", "\x01", "\x7f"});
            type = E::GarbageCharacters;
            off = 0;
            rest = true;
            break;
    }
    b.text += bad;
    if (rest)
        b.text += "\nsentinel ;";
    Session s(b.text);
    std::vector<Got> got;
    for (;;) {
        Got g = s.read();
        if (g.type == Token::EndOfFile)
            break;
        got.push_back(g);
        VF_CHECKR((got.size() < b.text.size() + 10), , "endless", "too many tokens from %s", esc(b.text).c_str());
    }
    VF_CHECKR((s.errs.size() == 1), , vf::fmt("errors-%d", (int) type), "%zu errors from %s", s.errs.size(), esc(b.text).c_str());
    VF_CHECK((s.errs[0].type == type), vf::fmt("error-kind-%d", (int) type), "error %d, not %d, from %s", (int) s.errs[0].type, (int) type, esc(b.text).c_str());
    VF_CHECK((s.errs[0].loc == (int64_t)(at + off)), vf::fmt("error-place-%d", (int) type), "error at %lld, not %zu, from %s", (long long) s.errs[0].loc, at + off, esc(b.text).c_str());
    if (other >= 0)
        VF_CHECK((s.errs[0].other == (int64_t) at), vf::fmt("error-start-%d", (int) type), "error started at %lld, not %zu, from %s", (long long) s.errs[0].other, at, esc(b.text).c_str());
    VF_CHECK((!s.errs[0].msg.empty() && s.errs[0].msg.find("not implemented") == Str::npos), "message", "%s", s.errs[0].msg.c_str());
    if (rest) {
        VF_CHECK((got.size() >= 2 && got[got.size() - 2].text == "sentinel" && got.back().text == ";"), vf::fmt("recovery-%d", (int) type), "reading does not go on after the error in %s", esc(b.text).c_str());
    }
    count(vf::fmt("error%d", (int) type).c_str(), 1);
    evals(1);
}

// Definitions that mention themselves or each other still end
VF_WORKLOAD(recursive, 2000, 20000) {
    static const char* const names[] = {"A", "B", "C", "D"};
    u32 n = 1 + r.below(4);
    std::map<Str, std::vector<Str>> defs;
    for (u32 i = 0; i < n; i++) {
        std::vector<Str> d;
        for (u32 k = r.below(4); k > 0; k--)
            d.push_back(r.chance(1, 3) ? Str("x") : Str(names[r.below(n)]));
        defs[names[i]] = d;
    }
    std::vector<Str> src, expected, stack;
    for (u32 k = 1 + r.below(4); k > 0; k--)
        src.push_back(names[r.below(4)]);
    // A name is replaced unless it is already being replaced
    std::function<void(const std::vector<Str>&)> expand = [&](const std::vector<Str>& words) {
        for (auto& w : words) {
            if (expected.size() > 4000)
                return;
            bool active = false;
            for (auto& x : stack)
                active = active || x == w;
            if (!active && defs.count(w)) {
                stack.push_back(w);
                expand(defs[w]);
                stack.pop_back();
            } else
                expected.push_back(w);
        }
    };
    expand(src);
    auto join = [](const std::vector<Str>& v) {
        Str s;
        for (auto& w : v)
            s += w + " ";
        return s;
    };
    Session s(join(src) + ";");
    for (auto& d : defs)
        cpp::addPPDef(&s.pp, view(d.first), view(join(d.second)));
    expected.push_back(";");
    std::vector<Str> got;
    for (size_t i = 0;; i++) {
        Got g = s.read();
        if (g.type == Token::EndOfFile)
            break;
        if (g.type != Token::Macro)
            got.push_back(g.text);
        VF_CHECKR((i < 20000), , "endless", "expansion of %s does not end", join(src).c_str());
    }
    Str all;
    for (auto& d : defs)
        all += d.first + "=" + join(d.second) + "; ";
    VF_CHECK((got == expected), "expansion", "%s with %s gives %s, not %s", join(src).c_str(), all.c_str(), join(got).substr(0, 300).c_str(), join(expected).substr(0, 300).c_str());
    evals(1);
    distinct(hashStr(all + join(src)));
    count("tokens", got.size());
}

} // namespace

VF_MAIN()
