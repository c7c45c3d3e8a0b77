// Pylon: parser against an independent reading of the grammar, write/parse round trips, and node operations against a model.
#include "plyvf.h"
#include <pylon/Parse.h>
#include <pylon/Write.h>
#include <map>
#include <memory>
using namespace ply;
using vf::Str;

namespace {
struct Tree {
    int type = 0; // 1 text, 2 array, 3 object
    u64 ofs = 0;
    Str text;
    std::vector<std::unique_ptr<Tree>> items;
    std::vector<Str> keys;
    std::unique_ptr<Tree> clone() const {
        auto t = std::make_unique<Tree>();
        t->type = type;
        t->ofs = ofs;
        t->text = text;
        t->keys = keys;
        for (auto& i : items)
            t->items.push_back(i->clone());
        return t;
    }
};
using TP = std::unique_ptr<Tree>;

struct Scope {
    int type;
    u64 ofs;
    Str name;
    u32 index;
};

// The grammar, read over a plain string.
struct Ref {
    const Str& s;
    size_t p = 0;
    bool failed = false;
    u64 errOfs = 0;
    bool errExact = true;
    Str errKind;
    std::vector<Scope> scopes, errScopes;
    explicit Ref(const Str& s) : s(s) {
    }
    enum Kind { Bad, Open, Close, OpenSq, CloseSq, Colon, Sep, Text, Junk, Line, End };
    struct Tok {
        Kind k = Bad;
        u64 ofs = 0;
        Str text;
    };
    void err(u64 ofs, const char* kind, bool exact = true) {
        if (failed)
            return;
        failed = true;
        errOfs = ofs;
        errExact = exact;
        errKind = kind;
        errScopes = scopes;
    }
    int at(size_t i) const {
        return i < s.size() ? (u8) s[i] : -1;
    }
    static bool word(int c) {
        return c >= 128 || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c != -1 && c != 0 && strchr("_$-.", c));
    }
    static int hex(int c) {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'f')
            return c - 'a' + 10;
        if (c >= 'A' && c <= 'F')
            return c - 'A' + 10;
        return -1;
    }
    Tok quoted() {
        Tok t{Text, p, {}};
        int q = at(p++);
        bool multi = false;
        if (at(p) == q && at(p + 1) == q) {
            multi = true;
            p += 2;
        }
        for (;;) {
            int c = at(p);
            if (c == -1) {
                err(p, "end of file");
                return {};
            }
            if (c == q) {
                if (!multi) {
                    p++;
                    return t;
                }
                if (at(p + 1) == q && at(p + 2) == q) {
                    p += 3;
                    return t;
                }
                t.text += (char) c;
                p++;
            } else if (c == '\n' || c == '\r') {
                if (!multi) {
                    err(p, "end of line");
                    return {};
                }
                if (c == '\n')
                    t.text += '\n';
                p++;
            } else if (c == '\\') {
                size_t start = p++;
                int e = at(p++);
                if (e == '\\' || e == '\'' || e == '"')
                    t.text += (char) e;
                else if (e == 'n')
                    t.text += '\n';
                else if (e == 'r')
                    t.text += '\r';
                else if (e == 't')
                    t.text += '\t';
                else if (e == 'x' && hex(at(p)) >= 0 && hex(at(p + 1)) >= 0) {
                    t.text += (char) (hex(at(p)) * 16 + hex(at(p + 1)));
                    p += 2;
                } else {
                    err(start, "", false);
                    return {};
                }
            } else {
                t.text += (char) c;
                p++;
            }
        }
    }
    Tok next(bool lines) {
        for (;;) {
            int c = at(p);
            u64 o = p;
            if (c == ' ' || c == '\t' || c == '\r' || (c == '\n' && !lines)) {
                p++;
                continue;
            }
            if (c == -1)
                return {End, s.size(), {}};
            if (c == '"' || c == '\'')
                return quoted();
            if (word(c)) {
                Tok t{Text, o, {}};
                while (word(at(p)))
                    t.text += s[p++];
                return t;
            }
            p++;
            switch (c) {
                case '\n':
                    return {Line, o, {}};
                case '{':
                    return {Open, o, {}};
                case '}':
                    return {Close, o, {}};
                case '[':
                    return {OpenSq, o, {}};
                case ']':
                    return {CloseSq, o, {}};
                case ':':
                case '=':
                    return {Colon, o, {}};
                case ',':
                case ';':
                    return {Sep, o, {}};
            }
            p--;
            return {Junk, o, {}};
        }
    }
    TP value(Tok&& t) {
        auto n = std::make_unique<Tree>();
        n->ofs = t.ofs;
        if (t.k == Text) {
            n->type = 1;
            n->text = t.text;
            return n;
        }
        if (t.k == OpenSq) {
            n->type = 2;
            size_t me = scopes.size();
            scopes.push_back({ParseArray, t.ofs, {}, 0});
            for (;;) {
                Tok u = next(true);
                if (u.k == CloseSq)
                    break;
                if (u.k == Sep || u.k == Line)
                    continue;
                TP v = value(std::move(u));
                if (!v)
                    return {};
                n->items.push_back(std::move(v));
                scopes[me].index++;
            }
            scopes.pop_back();
            return n;
        }
        if (t.k == Open) {
            n->type = 3;
            scopes.push_back({ParseObject, t.ofs, {}, 0});
            std::map<Str, u64> where;
            for (;;) {
                bool sep = n->items.empty();
                Tok u = next(true);
                while (u.k == Sep || u.k == Line) {
                    sep = true;
                    u = next(true);
                }
                if (u.k == Close)
                    break;
                if (u.k == Bad)
                    return {};
                if (u.k != Text) {
                    err(u.ofs, n->items.empty() ? "Expected property" : "Unexpected");
                    return {};
                }
                if (!sep) {
                    err(u.ofs, "Expected a comma, semicolon or newline");
                    return {};
                }
                if (where.count(u.text)) {
                    scopes.push_back({ParseDuplicate, where[u.text], {}, 0});
                    err(u.ofs, "Duplicate property");
                    return {};
                }
                Tok c = next(false);
                if (c.k == Bad)
                    return {};
                if (c.k != Colon) {
                    err(c.ofs, "Expected \":\"");
                    return {};
                }
                scopes.push_back({ParseProperty, u.ofs, u.text, 0});
                TP v = value(next(false));
                if (!v)
                    return {};
                scopes.pop_back();
                where[u.text] = u.ofs;
                n->keys.push_back(u.text);
                n->items.push_back(std::move(v));
            }
            scopes.pop_back();
            return n;
        }
        if (t.k != Bad)
            err(t.ofs, "Unexpected");
        return {};
    }
    enum { ParseObject, ParseProperty, ParseDuplicate, ParseArray };
    TP parse() {
        TP v = value(next(false));
        if (!v)
            return {};
        Tok e = next(false);
        if (e.k == Bad)
            return {};
        if (e.k != End) {
            err(e.ofs, "Unexpected");
            return {};
        }
        return v;
    }
};

Str show(const Tree* t) {
    if (!t)
        return "(none)";
    if (t->type == 1)
        return vf::fmt("\"%s\"", vf::esc(t->text).c_str());
    Str o = t->type == 2 ? "[" : "{";
    for (size_t i = 0; i < t->items.size(); i++) {
        if (t->type == 3)
            o += vf::esc(t->keys[i]) + ":";
        o += show(t->items[i].get()) + ",";
    }
    return o + (t->type == 2 ? "]" : "}");
}

// Is the node the tree, reached through every accessor?
bool same(const pylon::Node* n, const Tree* t, bool offsets, Str path = "") {
    u32 count = (u32) t->items.size();
    VF_CHECKR(n != nullptr, false, "tree-null", "at %s", path.c_str());
    VF_CHECKR(n->isValid() && n->isText() == (t->type == 1) && n->isArray() == (t->type == 2) && n->isObject() == (t->type == 3), false, "tree-type",
              "at %s: type %d, expected %d", path.c_str(), (int) n->type, t->type);
    if (offsets)
        VF_CHECKR(n->fileOfs == t->ofs, false, "tree-offset", "at %s: offset %llu, expected %llu", path.c_str(), (unsigned long long) n->fileOfs,
                  (unsigned long long) t->ofs);
    VF_CHECKR(vf::str(n->text()) == t->text, false, "tree-text", "at %s: %s, expected %s", path.c_str(), vf::esc(vf::str(n->text())).c_str(),
              vf::esc(t->text).c_str());
    VF_CHECKR(n->arrayView().numItems == (t->type == 2 ? count : 0), false, "tree-array", "at %s: %u items, expected %u", path.c_str(),
              n->arrayView().numItems, count);
    VF_CHECKR(n->object().items.numItems() == (t->type == 3 ? count : 0), false, "tree-object", "at %s: %u items, expected %u", path.c_str(),
              n->object().items.numItems(), count);
    VF_CHECKR(!n->get(t->type == 2 ? count : 0)->isValid(), false, "tree-get", "at %s: an item past the end", path.c_str());
    VF_CHECKR(!n->get("no such key")->isValid(), false, "tree-get", "at %s: a missing key", path.c_str());
    for (u32 i = 0; i < count; i++) {
        if (t->type == 2) {
            VF_CHECKR(n->get(i) == n->arrayView()[i], false, "tree-get", "at %s: item %u", path.c_str(), i);
            if (!same(n->arrayView()[i], t->items[i].get(), offsets, path + vf::fmt("[%u]", i)))
                return false;
        } else {
            VF_CHECKR(vf::str(n->object().items[i].key) == t->keys[i], false, "tree-key", "at %s: key %u is %s, expected %s", path.c_str(), i,
                      vf::esc(vf::str(n->object().items[i].key)).c_str(), vf::esc(t->keys[i]).c_str());
            VF_CHECKR(n->get(vf::view(t->keys[i])) == n->object().items[i].value, false, "tree-get", "at %s: key %s", path.c_str(),
                      vf::esc(t->keys[i]).c_str());
            if (!same(n->object().items[i].value, t->items[i].get(), offsets, path + "." + vf::esc(t->keys[i])))
                return false;
        }
    }
    return true;
}

Str anyText(vf::Rng& r) {
    switch (r.below(6)) {
        case 0:
            return vf::randBytes(r, 12);
        case 1:
            return vf::randUtf8(r, 8);
        case 2:
            return vf::randOver(r, "\"'\\\n\r\tx{}[]:=,; \x01\x1f\x7f" "a", 10);
        case 3:
            return vf::fmt("%d", (int) r.range(-100000, 100000));
        default:
            return vf::randOver(r, "abcXYZ019_$-.", 9);
    }
}

TP anyTree(vf::Rng& r, u32 depth) {
    auto t = std::make_unique<Tree>();
    u32 k = depth == 0 ? 0 : r.below(3);
    t->type = 1 + k;
    if (k == 0) {
        t->text = anyText(r);
        return t;
    }
    u32 n = r.chance(1, 60) ? 200 + r.below(200) : r.size(7);
    if (n > 20)
        depth = 1;
    for (u32 i = 0; i < n; i++) {
        if (k == 2) {
            Str key = n > 20 ? vf::fmt("key%u", i) : anyText(r);
            bool dup = false;
            for (auto& o : t->keys)
                dup |= o == key;
            if (dup)
                continue;
            t->keys.push_back(key);
        }
        t->items.push_back(anyTree(r, depth - 1));
    }
    return t;
}

// Some spelling of the text.
Str spell(vf::Rng& r, const Str& s) {
    bool plain = !s.empty(), raw = true;
    for (char c : s)
        plain &= Ref::word((u8) c);
    if (plain && r.chance(2, 3))
        return s;
    char q = r.chance(1, 2) ? '"' : '\'';
    bool multi = r.chance(1, 4);
    Str o(multi ? 3 : 1, q);
    for (size_t i = 0; i < s.size(); i++) {
        u8 c = (u8) s[i];
        bool must = c == '\\' || c == '\r' || (c == '\n' && !multi) || (c == q && (!multi || r.chance(1, 2) || i + 1 == s.size() || s[i + 1] == q));
        if (must || r.chance(1, 12)) {
            if (c == '\n' || c == '\r' || c == '\t')
                o += Str("\\") + (c == '\n' ? 'n' : c == '\r' ? 'r' : 't');
            else if (c == '\\' || c == '\'' || c == '"')
                o += Str("\\") + (char) c;
            else
                o += vf::fmt(r.chance(1, 2) ? "\\x%02x" : "\\x%02X", c);
        } else {
            o += (char) c;
        }
    }
    // A raw quote directly before the closing ones would be taken as one of them.
    (void) raw;
    return o + Str(multi ? 3 : 1, q);
}

Str gap(vf::Rng& r, bool lines) {
    return r.chance(2, 3) ? "" : vf::randOver(r, lines ? " \t\r\n" : " \t\r", 3);
}

void print(vf::Rng& r, const Tree* t, Str& o) {
    if (t->type == 1) {
        o += spell(r, t->text);
        return;
    }
    o += t->type == 2 ? "[" : "{";
    auto sep = [&](bool need) {
        static const char* seps[] = {",", ";", "\n", ",\n", "\r\n", " ;; "};
        if (need || r.chance(1, 3))
            o += seps[r.below(6)];
        o += gap(r, true);
    };
    for (size_t i = 0; i < t->items.size(); i++) {
        sep(i > 0);
        if (t->type == 3)
            o += spell(r, t->keys[i]) + gap(r, true) + (r.chance(2, 3) ? ":" : "=") + gap(r, true);
        print(r, t->items[i].get(), o);
        o += gap(r, false);
    }
    sep(false);
    o += t->type == 2 ? "]" : "}";
}

struct Seen {
    u32 count = 0;
    u32 ofs = 0;
    Str message, dump;
    std::vector<Scope> scopes;
};

bool check(const Str& text, u32 times = 1) {
    Ref ref(text);
    TP want = ref.parse();
    vf::Exact mem(text);
    pylon::Parser parser;
    Seen seen;
    parser.setErrorCallback([&](const pylon::ParseError& e) {
        seen.count++;
        seen.ofs = e.fileOfs;
        seen.message = vf::str(e.message);
        seen.scopes.clear();
        for (const pylon::ParseError::Scope& s : e.context)
            seen.scopes.push_back({(int) s.type, s.fileOfs, vf::str(s.name), s.index});
        MemOutStream mout;
        parser.dumpError(e, mout);
        seen.dump = vf::str(mout.moveToString());
    });
    for (u32 k = 0; k < times; k++) {
        seen = {};
        pylon::Parser::Result res = parser.parse(mem.view());
        VF_CHECKR(res.root, false, "null-root", "%s", vf::esc(text).c_str());
        VF_CHECKR(res.root->isValid() == (want != nullptr), false, "verdict", "%s is %s; the grammar says %s", vf::esc(text).c_str(),
                  res.root->isValid() ? "accepted" : seen.message.c_str(), want ? "it's fine" : ref.errKind.c_str());
        VF_CHECKR(parser.anyError() == !want && seen.count == (want ? 0u : 1u), false, "error-count", "%s: %u errors, anyError %d", vf::esc(text).c_str(),
                  seen.count, parser.anyError());
        if (want) {
            if (!same(res.root, want.get(), true))
                return false;
            // Each node is found where the text has it
            FileLocation loc = res.fileLocMap.getFileLocation((u32) want->ofs);
            u32 line = 1;
            for (size_t i = 0; i < want->ofs; i++)
                line += text[i] == '\n';
            VF_CHECKR(loc.lineNumber == line, false, "location", "%s: line %u, expected %u", vf::esc(text).c_str(), loc.lineNumber, line);
            vf::count("accepted");
        } else {
            vf::count("rejected");
            VF_CHECKR(seen.ofs <= text.size(), false, "error-place", "%s: error at %u", vf::esc(text).c_str(), seen.ofs);
            if (ref.errExact)
                VF_CHECKR(seen.ofs == ref.errOfs, false, "error-place", "%s: error \"%s\" at %u, expected %llu", vf::esc(text).c_str(),
                          seen.message.c_str(), seen.ofs, (unsigned long long) ref.errOfs);
            else
                VF_CHECKR(seen.ofs >= ref.errOfs, false, "error-place", "%s: error \"%s\" at %u, before %llu", vf::esc(text).c_str(),
                          seen.message.c_str(), seen.ofs, (unsigned long long) ref.errOfs);
            VF_CHECKR(seen.message.find(ref.errKind) != Str::npos, false, "error-kind", "%s: \"%s\", expected \"%s\"", vf::esc(text).c_str(),
                      seen.message.c_str(), ref.errKind.c_str());
            VF_CHECKR(seen.scopes.size() == ref.errScopes.size(), false, "error-context", "%s: %zu scopes, expected %zu", vf::esc(text).c_str(),
                      seen.scopes.size(), ref.errScopes.size());
            for (size_t i = 0; i < seen.scopes.size(); i++) {
                Scope &a = seen.scopes[i], &b = ref.errScopes[i];
                VF_CHECKR(a.type == b.type && a.ofs == b.ofs && a.name == b.name && a.index == b.index, false, "error-context",
                          "%s: scope %zu is %d at %llu name %s index %u, expected %d at %llu name %s index %u", vf::esc(text).c_str(), i, a.type,
                          (unsigned long long) a.ofs, a.name.c_str(), a.index, b.type, (unsigned long long) b.ofs, b.name.c_str(), b.index);
            }
            u32 line = 1;
            for (u32 i = 0; i < seen.ofs; i++)
                line += text[i] == '\n';
            VF_CHECKR(seen.dump.compare(0, 2 + std::to_string(line).size(), vf::fmt("(%u,", line)) == 0, false, "error-line",
                      "%s: %s, expected line %u", vf::esc(text).c_str(), seen.dump.c_str(), line);
        }
    }
    vf::evals(1);
    vf::distinct(vf::hashStr(text));
    return true;
}
} // namespace

VF_WORKLOAD(spellings, 3000, 60000) {
    s64 live = vf::liveBytes();
    {
        TP t = anyTree(r, 4);
        Str o = gap(r, true);
        print(r, t.get(), o);
        o += gap(r, true);
        Ref ref(o);
        TP w = ref.parse();
        VF_CHECK(w && show(w.get()) == show(t.get()), "generator", "%s reads as %s, not %s", vf::esc(o).c_str(), show(w.get()).c_str(), show(t.get()).c_str());
        if (!check(o, 1 + r.below(2)))
            return;
        // and its prefixes and small changes
        for (u32 i = 0; i < 6; i++) {
            Str c = o;
            switch (r.below(5)) {
                case 0:
                    c = c.substr(0, r.below((u32) c.size() + 1));
                    break;
                case 1:
                    if (c.size())
                        c.erase(r.below((u32) c.size()), 1 + r.below(2));
                    break;
                case 2:
                    if (c.size())
                        c[r.below((u32) c.size())] = "{}[]:=,;\"'\\\n \xff\x01x#("[r.below(18)];
                    break;
                case 3:
                    c.insert(r.below((u32) c.size() + 1), 1, "{}[]:=,;\"'\\\n \xff\x01x#("[r.below(18)]);
                    break;
                case 4: {
                    // repeat a stretch (duplicate properties)
                    u32 a = r.below((u32) c.size() + 1), n = r.below(20);
                    c.insert(a, c.substr(a, n));
                    break;
                }
            }
            if (!check(c))
                return;
        }
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

VF_WORKLOAD(garbage, 3000, 60000) {
    s64 live = vf::liveBytes();
    for (u32 i = 0; i < 10; i++) {
        Str s;
        switch (r.below(4)) {
            case 0:
                s = vf::randBytes(r, 60);
                break;
            case 1:
                s = vf::randOver(r, "{}[]:=,;\"'\\ \n\r\tabx0_-$.\xff\x80\x01#", 30);
                break;
            case 2:
                s = vf::randOver(r, "{}[]:,a\n", 14);
                break;
            case 3:
                s = vf::randOver(r, "\"'\\x4aFn\n\r\t", 14);
                break;
        }
        if (!check(s, 1 + r.below(2)))
            return;
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// All short strings over the characters that matter.
VF_WORKLOAD(shortTexts, 8, 8) {
    static const char A[] = "{}[]:,a\n\"'\\x0 \xff";
    const u32 k = sizeof(A) - 1, len = vf::thorough() ? 6 : 5;
    Str s;
    // This case takes every eighth combination
    u64 total = 1;
    for (u32 i = 0; i < len; i++)
        total *= k;
    u64 step = 8 * (vf::thorough() ? 4 : 5);
    for (u64 c = idx + 8 * r.below((u32) (step / 8)); c < total; c += step) {
        s.clear();
        u64 v = c;
        u32 n = len - (c % 7 == 0) - (c % 11 == 0);
        for (u32 i = 0; i < n; i++, v /= k)
            s += A[v % k];
        if (!check(s))
            return;
    }
}

VF_WORKLOAD(deep, 20, 100) {
    u32 n = 1 + r.below(400);
    Str s;
    std::vector<bool> obj;
    for (u32 i = 0; i < n; i++) {
        obj.push_back(r.chance(1, 2));
        s += obj[i] ? "{a:" : "[";
    }
    s += "x";
    for (u32 i = n; i-- > 0;)
        s += obj[i] ? "}" : "]";
    if (r.chance(1, 2))
        s = s.substr(0, r.below((u32) s.size()));
    check(s);
}

static Owned<pylon::Node> build(const Tree* t) {
    if (t->type == 1)
        return pylon::Node::createText(String{vf::view(t->text)}, 0);
    if (t->type == 2) {
        Owned<pylon::Node> n = pylon::Node::createArray();
        for (auto& i : t->items)
            n->array().append(build(i.get()));
        return n;
    }
    Owned<pylon::Node> n = pylon::Node::createObject();
    for (size_t i = 0; i < t->items.size(); i++)
        n->set(String{vf::view(t->keys[i])}, build(t->items[i].get()));
    return n;
}

VF_WORKLOAD(roundTrips, 3000, 60000) {
    s64 live = vf::liveBytes();
    {
        TP t = anyTree(r, 4);
        Owned<pylon::Node> n = build(t.get());
        if (!same(n, t.get(), false))
            return;
        String s = pylon::toString(n);
        MemOutStream mout;
        pylon::write(&mout, n);
        VF_CHECK(mout.moveToString() == s, "write", "write and toString differ");
        Str text = vf::str(s);
        Ref ref(text);
        TP w = ref.parse();
        VF_CHECK(w && show(w.get()) == show(t.get()), "roundtrip-text", "%s is written as %s", show(t.get()).c_str(), vf::esc(text).c_str());
        vf::Exact mem(text);
        pylon::Parser parser;
        Str message;
        parser.setErrorCallback([&](const pylon::ParseError& e) { message = vf::str(e.message); });
        auto res = parser.parse(mem.view());
        VF_CHECK(res.root->isValid() && !parser.anyError(), "roundtrip", "%s: %s", vf::esc(text).c_str(), message.c_str());
        if (!same(res.root, t.get(), false))
            return;
        VF_CHECK(pylon::toString(res.root) == s, "rewrite", "%s is written differently the second time", vf::esc(text).c_str());
        Owned<pylon::Node> c = res.root->copy();
        if (!same(c, t.get(), false))
            return;
        n.clear();
        VF_CHECK(pylon::toString(c) == s, "copy", "%s: the copy is written differently", vf::esc(text).c_str());
        vf::evals(1);
        vf::distinct(vf::hashStr(text));
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// Objects and arrays under get, set, remove, append, copy
VF_WORKLOAD(operations, 400, 8000) {
    s64 live = vf::liveBytes();
    {
        TP t = std::make_unique<Tree>();
        t->type = 3;
        Owned<pylon::Node> n = pylon::Node::createObject();
        u32 range = r.chance(1, 3) ? 400 : 12, steps = range * 4;
        u32 bias = 1 + r.below(3);
        for (u32 step = 0; step < steps; step++) {
            Str key = vf::fmt("k%u", r.below(range));
            size_t i = std::find(t->keys.begin(), t->keys.end(), key) - t->keys.begin();
            bool has = i < t->keys.size();
            if (r.below(4) < bias || (!has && r.chance(1, 2))) {
                TP v = anyTree(r, r.below(3));
                Borrowed<pylon::Node> got = n->set(String{vf::view(key)}, build(v.get()));
                VF_CHECK(n->get(vf::view(key)) == got, "set", "%s", key.c_str());
                if (has) {
                    t->items[i] = std::move(v);
                } else {
                    t->keys.push_back(key);
                    t->items.push_back(std::move(v));
                }
            } else {
                const pylon::Node* before = n->get(vf::view(key));
                VF_CHECK(before->isValid() == has, "get", "%s", key.c_str());
                Owned<pylon::Node> gone = n->remove(vf::view(key));
                VF_CHECK((bool) gone == has, "remove", "%s", key.c_str());
                if (has) {
                    if (!same(gone, t->items[i].get(), false))
                        return;
                    t->keys.erase(t->keys.begin() + i);
                    t->items.erase(t->items.begin() + i);
                }
            }
            if (r.chance(1, 20) || step + 1 == steps) {
                if (!same(n, t.get(), false))
                    return;
                if (r.chance(1, 4)) {
                    Owned<pylon::Node> c = n->copy();
                    if (r.chance(1, 2))
                        n = std::move(c);
                    else
                        c = std::move(n), n = std::move(c);
                }
            }
            vf::evals(1);
        }
        // Operations on the wrong kind of node do nothing
        Owned<pylon::Node> x = pylon::Node::createText("text");
        VF_CHECK(!x->get("a")->isValid() && !x->get(0u)->isValid() && x->arrayView().numItems == 0 && ((const pylon::Node*) x.get())->object().items.numItems() == 0 && !x->remove("a"),
                 "wrong-kind", "text");
        x->setText("other");
        VF_CHECK(x->text() == "other", "set-text", "text");
        Owned<pylon::Node> none = pylon::Node::createInvalid();
        VF_CHECK(!none->isValid() && !none->isText() && none->text() == "" && !none->get("a")->isValid() && !none->copy()->isValid() && !none->numeric().first,
                 "wrong-kind", "invalid");
        n->setText("zip");
        VF_CHECK(n->isObject() && n->text() == "", "wrong-kind", "object");
        // Numbers
        double v = (double) r.range(-1000000, 1000000) / 64;
        Str num = vf::fmt("%.6f", v);
        auto pair = pylon::Node::createText(String{vf::view(num)})->numeric();
        VF_CHECK(pair.first && std::abs(pair.second - v) < 1e-6, "numeric", "%s is %g", num.c_str(), pair.second);
        VF_CHECK(!pylon::Node::createText("abc")->numeric().first && !pylon::Node::createText("")->numeric().first, "numeric", "not a number");
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
    vf::distinct(r.u64());
}

VF_MAIN()
