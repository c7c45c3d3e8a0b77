// Reflected objects exported to data trees, written as text, parsed, and imported again; numeric imports; partial trees; filters.
#include "reflectvf.h"
#include <pylon/Node.h>
#include <pylon/Parse.h>
#include <pylon/Write.h>
#include <pylon-reflect/Export.h>
#include <pylon-reflect/Import.h>
#include <ply-reflect/AnySavedObject.h>
#include <ply-reflect/TypedArray.h>

namespace px {
struct Leaf {
    PLY_REFLECT()
    String name;
    bool on = false;
    v1::Hue hue = v1::Hue::Green;
    v1::Mid mid = v1::Mid::High;
    v1::Wide wide = v1::Wide::Some;
};
struct Alt {
    struct None {
        PLY_REFLECT()
    };
    struct One {
        PLY_REFLECT()
        Leaf leaf;
        Array<Array<String>> rows;
    };
    struct Boxed {
        PLY_REFLECT()
        Owned<Leaf> leaf;
        String tail;
    };
    enum class ID : u16 { None, One, Boxed, Count };
    union Storage_ {
        None none;
        One one;
        Boxed boxed;
        PLY_INLINE Storage_() {
        }
        PLY_INLINE ~Storage_() {
        }
    };
    SWITCH_FOOTER(Alt, None)
    SWITCH_ACCESSOR(None, none)
    SWITCH_ACCESSOR(One, one)
    SWITCH_ACCESSOR(Boxed, boxed)
    PLY_SWITCH_REFLECT()
};
struct Tree {
    PLY_REFLECT()
    String title;
    Array<String> words;
    Array<Leaf> leaves;
    Owned<Leaf> own;
    Array<Owned<Leaf>> owns;
    Alt alt;
    Array<Alt> alts;
    Array<v1::Hue> hues;
    Leaf in;
    bool last = false;
};
struct Pair {
    PLY_REFLECT()
    FixedArray<float, 2> v;
};
struct Nums {
    PLY_REFLECT()
    float f = -1;
    u8 a = 1;
    u16 b = 1;
    u32 c = 1;
    s32 d = 1;
    Array<float> fs;
    Array<s32> ds;
    FixedArray<u16, 3> fixed;
    EnumIndexedArray<u32, v1::Hue> by;
    Array<Pair> pairs;
    String note;
    bool flag = true;
};
struct Any {
    PLY_REFLECT()
    String name;
    AnySavedObject obj;
    TypedArray items;
};
} // namespace px
#define M(x) PLY_STRUCT_MEMBER(x)
PLY_STRUCT_BEGIN(px::Leaf)
M(name) M(on) M(hue) M(mid) M(wide) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(px::Alt::None)
PLY_STRUCT_END()
PLY_STRUCT_BEGIN(px::Alt::One)
M(leaf) M(rows) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(px::Alt::Boxed)
M(leaf) M(tail) PLY_STRUCT_END()
SWITCH_TABLE_BEGIN(px::Alt)
SWITCH_TABLE_STATE(px::Alt, None)
SWITCH_TABLE_STATE(px::Alt, One)
SWITCH_TABLE_STATE(px::Alt, Boxed)
SWITCH_TABLE_END(px::Alt)
PLY_SWITCH_BEGIN(px::Alt)
PLY_SWITCH_MEMBER(None)
PLY_SWITCH_MEMBER(One)
PLY_SWITCH_MEMBER(Boxed)
PLY_SWITCH_END()
PLY_STRUCT_BEGIN(px::Tree)
M(title) M(words) M(leaves) M(own) M(owns) M(alt) M(alts) M(hues) M(in) M(last) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(px::Pair)
M(v) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(px::Nums)
M(f) M(a) M(b) M(c) M(d) M(fs) M(ds) M(fixed) M(by) M(pairs) M(note) M(flag) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(px::Any)
M(name) M(obj) M(items) PLY_STRUCT_END()
#undef M

namespace {
u32 warm = 0; // the first cases allocate what stays
// A model value: text, list or record in order
struct Val {
    char k = 't';
    Str t;
    std::vector<std::pair<Str, Val>> m;
};
Val text(const Str& s) {
    Val v;
    v.t = s;
    return v;
}
const char* Hues[] = {"Red", "Green", "Blue"};
Str rtext(vf::Rng& r) {
    if (r.chance(1, 8))
        return vf::randUtf8(r, 5);
    if (r.chance(1, 8))
        return vf::randOver(r, "\"\\\n\t ,:={}[]/*#ab", 6);
    return Str("w") + std::to_string(r.below(1000));
}
template <class F>
Val list(u32 n, F&& f) {
    Val v;
    v.k = 'a';
    for (u32 i = 0; i < n; i++)
        v.m.push_back({"", f()});
    return v;
}
Val rec(std::vector<std::pair<Str, Val>> m) {
    Val v;
    v.k = 'o';
    v.m = std::move(m);
    return v;
}
Val rleaf(vf::Rng& r) {
    static const char* wides[] = {"None", "Some", "All"};
    return rec({{"name", text(rtext(r))},
                {"on", text(r.chance(1, 2) ? "true" : "false")},
                {"hue", text(Hues[r.below(3)])},
                {"mid", text(r.chance(1, 2) ? "Low" : "High")},
                {"wide", text(wides[r.below(3)])}});
}
Val ralt(vf::Rng& r) {
    switch (r.below(3)) {
        case 0:
            return rec({{Str("None"), rec({})}});
        case 1: {
            Val leaf = rleaf(r);
            Val rows = list(r.size(4), [&] { return list(r.size(4), [&] { return text(rtext(r)); }); });
            return rec({{"One", rec({{"leaf", leaf}, {"rows", rows}})}});
        }
        default: {
            Val leaf = rleaf(r);
            return rec({{"Boxed", rec({{"leaf", leaf}, {"tail", text(rtext(r))}})}});
        }
    }
}
Val rtree(vf::Rng& r) {
    std::vector<std::pair<Str, Val>> m;
    m.push_back({"title", text(rtext(r))});
    m.push_back({"words", list(r.size(5), [&] { return text(rtext(r)); })});
    m.push_back({"leaves", list(r.size(5), [&] { return rleaf(r); })});
    m.push_back({"own", rleaf(r)});
    m.push_back({"owns", list(r.size(5), [&] { return rleaf(r); })});
    m.push_back({"alt", ralt(r)});
    m.push_back({"alts", list(r.size(5), [&] { return ralt(r); })});
    m.push_back({"hues", list(r.size(9), [&] { return text(Hues[r.below(3)]); })});
    m.push_back({"in", rleaf(r)});
    m.push_back({"last", text(r.chance(1, 2) ? "true" : "false")});
    return rec(m);
}
Str show(const Val& v) {
    if (v.k == 't')
        return "'" + vf::esc(v.t) + "'";
    Str o = v.k == 'a' ? "[" : "{";
    for (auto& p : v.m)
        o += (v.k == 'o' ? p.first + ":" : Str()) + show(p.second) + " ";
    return o + (v.k == 'a' ? "]" : "}");
}
const Val& at(const Val& v, const char* k) {
    for (auto& p : v.m)
        if (p.first == k)
            return p.second;
    abort();
}
// The objects themselves, made and read without reflection
px::Leaf toLeaf(const Val& v) {
    px::Leaf l;
    l.name = String{vf::view(at(v, "name").t)};
    l.on = at(v, "on").t == "true";
    l.hue = at(v, "hue").t == "Red" ? v1::Hue::Red : at(v, "hue").t == "Green" ? v1::Hue::Green : v1::Hue::Blue;
    l.mid = at(v, "mid").t == "Low" ? v1::Mid::Low : v1::Mid::High;
    l.wide = at(v, "wide").t == "None" ? v1::Wide::None : at(v, "wide").t == "Some" ? v1::Wide::Some : v1::Wide::All;
    return l;
}
Val fromLeaf(const px::Leaf& l) {
    return rec({{"name", text(vf::str(l.name))},
                {"on", text(l.on ? "true" : "false")},
                {"hue", text(Hues[(u32) l.hue])},
                {"mid", text(l.mid == v1::Mid::Low ? "Low" : "High")},
                {"wide", text(l.wide == v1::Wide::None ? "None" : l.wide == v1::Wide::Some ? "Some" : "All")}});
}
Val fromOwned(const Owned<px::Leaf>& o) {
    return o ? fromLeaf(*o) : text("null");
}
px::Alt toAlt(const Val& v) {
    px::Alt a;
    const Val& s = v.m[0].second;
    if (v.m[0].first == "One") {
        auto one = a.one().switchTo();
        one->leaf = toLeaf(at(s, "leaf"));
        for (auto& row : at(s, "rows").m) {
            Array<String>& arr = one->rows.append();
            for (auto& item : row.second.m)
                arr.append(String{vf::view(item.second.t)});
        }
    } else if (v.m[0].first == "Boxed") {
        auto b = a.boxed().switchTo();
        b->leaf = new px::Leaf{toLeaf(at(s, "leaf"))};
        b->tail = String{vf::view(at(s, "tail").t)};
    }
    return a;
}
Val fromAlt(const px::Alt& a) {
    if (a.id == px::Alt::ID::One) {
        auto one = a.one();
        Val rows = list(0, [] { return Val{}; });
        for (u32 i = 0; i < one->rows.numItems(); i++) {
            u32 k = 0;
            rows.m.push_back({"", list(one->rows[i].numItems(), [&] { return text(vf::str(one->rows[i][k++])); })});
        }
        return rec({{"One", rec({{"leaf", fromLeaf(one->leaf)}, {"rows", rows}})}});
    }
    if (a.id == px::Alt::ID::Boxed)
        return rec({{"Boxed", rec({{"leaf", fromOwned(a.boxed()->leaf)}, {"tail", text(vf::str(a.boxed()->tail))}})}});
    return rec({{Str("None"), rec({})}});
}
void toTree(px::Tree& t, const Val& v) {
    t.title = String{vf::view(at(v, "title").t)};
    for (auto& w : at(v, "words").m)
        t.words.append(String{vf::view(w.second.t)});
    for (auto& w : at(v, "leaves").m)
        t.leaves.append(toLeaf(w.second));
    t.own = new px::Leaf{toLeaf(at(v, "own"))};
    for (auto& w : at(v, "owns").m)
        t.owns.append(new px::Leaf{toLeaf(w.second)});
    t.alt = toAlt(at(v, "alt"));
    for (auto& w : at(v, "alts").m)
        t.alts.append(toAlt(w.second));
    for (auto& w : at(v, "hues").m)
        t.hues.append(w.second.t == "Red" ? v1::Hue::Red : w.second.t == "Green" ? v1::Hue::Green : v1::Hue::Blue);
    t.in = toLeaf(at(v, "in"));
    t.last = at(v, "last").t == "true";
}
Val fromTree(const px::Tree& t) {
    std::vector<std::pair<Str, Val>> m;
    u32 i = 0;
    m.push_back({"title", text(vf::str(t.title))});
    m.push_back({"words", list(t.words.numItems(), [&] { return text(vf::str(t.words[i++])); })});
    i = 0;
    m.push_back({"leaves", list(t.leaves.numItems(), [&] { return fromLeaf(t.leaves[i++]); })});
    m.push_back({"own", fromOwned(t.own)});
    i = 0;
    m.push_back({"owns", list(t.owns.numItems(), [&] { return fromOwned(t.owns[i++]); })});
    m.push_back({"alt", fromAlt(t.alt)});
    i = 0;
    m.push_back({"alts", list(t.alts.numItems(), [&] { return fromAlt(t.alts[i++]); })});
    i = 0;
    m.push_back({"hues", list(t.hues.numItems(), [&] { return text(Hues[(u32) t.hues[i++]]); })});
    m.push_back({"in", fromLeaf(t.in)});
    m.push_back({"last", text(t.last ? "true" : "false")});
    return rec(m);
}
Val fromNode(const pylon::Node* n) {
    Val v;
    if (n->isText())
        return text(vf::str(n->text()));
    if (n->isArray()) {
        v.k = 'a';
        for (const pylon::Node* c : n->arrayView())
            v.m.push_back({"", fromNode(c)});
    } else if (n->isObject()) {
        v.k = 'o';
        for (const pylon::Node::Object::Item& item : n->object().items)
            v.m.push_back({vf::str(item.key), fromNode(item.value)});
    } else {
        v.k = '?';
    }
    return v;
}
Str quoted(const Str& s) {
    Str o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            o += '\\';
        if (c == '\n')
            o += "\\n";
        else if (c == '\r')
            o += "\\r";
        else if (c == '\t')
            o += "\\t";
        else
            o += c;
    }
    return o + "\"";
}
Str write(const Val& v) {
    if (v.k == 't')
        return quoted(v.t);
    Str o = v.k == 'a' ? "[" : "{";
    for (auto& p : v.m)
        o += (v.k == 'o' ? p.first + ": " : Str()) + write(p.second) + (v.k == 'o' ? "\n" : ", ");
    return o + (v.k == 'a' ? "]" : "}");
}
// Drops some members and adds unknown ones. What remains is what an import has to change.
Val thin(vf::Rng& r, const Val& v, bool record) {
    Val o = v;
    o.m.clear();
    for (auto& p : v.m) {
        if (record && r.chance(1, 3))
            continue;
        if (record && r.chance(1, 6))
            o.m.push_back({"unknown" + std::to_string(r.below(9)) + p.first, r.chance(1, 2) ? text("zz") : rleaf(r)});
        o.m.push_back(p);
    }
    if (record && r.chance(1, 3))
        for (u32 i = (u32) o.m.size(); i > 1; i--)
            std::swap(o.m[i - 1], o.m[r.below(i)]);
    return o;
}
Val thinTree(vf::Rng& r, const Val& v) {
    Val o = thin(r, v, true);
    for (auto& p : o.m) {
        if (p.first == "in" || p.first == "own")
            p.second = thin(r, p.second, true);
        else if (p.first == "leaves" || p.first == "owns")
            for (auto& c : p.second.m)
                c.second = thin(r, c.second, true);
        else if (p.first == "alt")
            p.second.m[0].second = thin(r, p.second.m[0].second, true);
    }
    return o;
}
void merge(Val& base, const Val& v) { // members of records only
    for (auto& b : base.m)
        for (auto& p : v.m)
            if (p.first == b.first)
                b.second = p.second;
}
Val defaultLeaf() {
    return fromLeaf(px::Leaf{});
}
// What importing `v` into an object worth `base` must give
Val importModel(Val base, const Val& v) {
    for (auto& p : v.m) {
        Val* b = nullptr;
        for (auto& q : base.m)
            if (q.first == p.first)
                b = &q.second;
        if (!b)
            continue;
        if (p.first == "in") {
            merge(*b, p.second);
        } else if (p.first == "own") { // owned objects are replaced
            *b = defaultLeaf();
            merge(*b, p.second);
        } else if (p.first == "owns") {
            Val n = list(0, [] { return Val{}; });
            for (auto& c : p.second.m) {
                Val l = defaultLeaf();
                merge(l, c.second);
                n.m.push_back({"", l});
            }
            *b = n;
        } else if (p.first == "leaves") { // items that exist are updated
            Val n = list(0, [] { return Val{}; });
            for (u32 i = 0; i < p.second.m.size(); i++) {
                Val l = i < b->m.size() ? b->m[i].second : defaultLeaf();
                merge(l, p.second.m[i].second);
                n.m.push_back({"", l});
            }
            *b = n;
        } else if (p.first == "alt") {
            const Str& state = p.second.m[0].first;
            const Val& sv = p.second.m[0].second;
            bool same = b->m[0].first == state;
            Val s = same ? b->m[0].second
                         : state == "One" ? rec({{"leaf", defaultLeaf()}, {"rows", list(0, [] { return Val{}; })}})
                                          : state == "Boxed" ? rec({{"leaf", text("null")}, {"tail", text("")}}) : rec({});
            merge(s, sv);
            *b = rec({{state, s}});
        } else {
            *b = p.second;
        }
    }
    return base;
}
Owned<pylon::Node> parse(const Str& src, Str& keep) {
    keep = src;
    return pylon::Parser{}.parse(vf::view(keep)).root;
}
} // namespace

VF_WORKLOAD(exportImport, 2500, 60000) {
    s64 live = vf::liveBytes();
    {
        Val v = rtree(r);
        Str want = show(v);
        px::Tree t;
        toTree(t, v);
        Str written;
        {
            Owned<pylon::Node> node = pylon::exportObj(AnyObject::bind(&t));
            Str got = show(fromNode(node));
            VF_CHECK(got == want, "export", "object %s, tree %s", want.c_str(), got.c_str());
            written = vf::str(pylon::toString(node));
        }
        Val still = fromTree(t);
        VF_CHECK(show(still) == want, "export-changes", "%s became %s", want.c_str(), show(still).c_str());
        bool plain = true; // the text form of other bytes is another matter
        for (char c : want)
            plain = plain && (unsigned char) c < 128;
        if (plain) {
            vf::Exact e(written);
            auto result = pylon::Parser{}.parse(e.view());
            VF_CHECK(result.root && result.root->isValid(), "reparse", "%s", vf::esc(written).c_str());
            Owned<px::Tree> back;
            px::Tree over;
            Val old = rtree(r);
            toTree(over, old);
            back = pylon::import<px::Tree>(result.root);
            Str got = show(fromTree(*back));
            VF_CHECK(got == want, "roundtrip", "wrote %s, read %s", want.c_str(), got.c_str());
            pylon::importInto(AnyObject::bind(&over), result.root);
            got = show(fromTree(over));
            // The states of the items of `alts` that exist are updated, all members being present
            VF_CHECK(got == want, "import-over", "wrote %s over %s, read %s", want.c_str(), show(old).c_str(), got.c_str());
            vf::count("reimported");
        }
        vf::distinct(vf::hashStr(want));
        vf::evals(3);
    }
    VF_CHECK(warm++ < 20 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

VF_WORKLOAD(partial, 2500, 60000) {
    s64 live = vf::liveBytes();
    {
        Val base = rtree(r), v = thinTree(r, rtree(r));
        Str keep;
        Str src = write(v);
        Owned<pylon::Node> node = parse(src, keep);
        VF_CHECK(node && node->isValid() && show(fromNode(node)) == show(v), "parse", "%s parsed as %s", vf::esc(src).c_str(), node ? show(fromNode(node)).c_str() : "null");
        px::Tree t;
        toTree(t, base);
        for (u32 k = 0; k < 2; k++) {
            Str want = show(importModel(base, v));
            pylon::importInto(AnyObject::bind(&t), node);
            Val got = fromTree(t);
            VF_CHECK(show(got) == want, "partial", "%s into %s gives %s, not %s", show(v).c_str(), show(base).c_str(), show(got).c_str(), want.c_str());
            base = got;
        }
        px::Tree fresh;
        Val blank = fromTree(fresh);
        pylon::importInto(AnyObject::bind(&fresh), node);
        Str got = show(fromTree(fresh)), want = show(importModel(blank, v));
        VF_CHECK(got == want, "partial-fresh", "%s gives %s, not %s", show(v).c_str(), got.c_str(), want.c_str());
        node.clear();
        keep.assign(keep.size(), '\x7f');
        got = show(fromTree(fresh));
        VF_CHECK(got == want, "aliases-source", "the object follows the source text: %s", got.c_str());
        vf::evals(3);
        vf::distinct(vf::hashStr(want));
    }
    VF_CHECK(warm++ < 20 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

VF_WORKLOAD(numbers, 4000, 80000) {
    s64 live = vf::liveBytes();
    {
        px::Nums t, want;
        t.note = "old";
        want.note = "old";
        for (u32 i = 0; i < 3; i++) {
            t.fixed[i] = want.fixed[i] = (u16) r.u32();
            t.by[(v1::Hue) i] = want.by[(v1::Hue) i] = r.u32();
        }
        for (u32 i = r.size(4); i > 0; i--) {
            t.fs.append(3.f);
            t.ds.append(-3);
            t.pairs.append();
        }
        want.fs = t.fs;
        want.ds = t.ds;
        bool pairs = false;
        std::vector<std::pair<float, float>> wantPairs;
        Str src = "{\n";
        auto flt = [&](float& out) {
            out = (float) r.range(-40000, 40000) / 8;
            return vf::fmt("%.3f", (double) out);
        };
        for (u32 k = r.below(12); k > 0; k--) {
            switch (r.below(11)) {
                case 0:
                    if (src.find("f:") == Str::npos)
                        src += "f: " + flt(want.f) + "\n";
                    break;
                case 1:
                    if (src.find("\na:") == Str::npos)
                        src += "a: " + std::to_string(want.a = (u8) r.u32()) + "\n";
                    break;
                case 2:
                    if (src.find("\nb:") == Str::npos)
                        src += "b: " + std::to_string(want.b = (u16) r.u32()) + "\n";
                    break;
                case 3:
                    if (src.find("\nc:") == Str::npos)
                        src += "c: " + std::to_string(want.c = r.u32()) + "\n";
                    break;
                case 4:
                    if (src.find("\nd:") == Str::npos)
                        src += "d: " + std::to_string(want.d = (s32) r.u32()) + "\n";
                    break;
                case 5:
                    if (src.find("fs:") == Str::npos) {
                        src += "fs: [";
                        want.fs.clear();
                        for (u32 n = r.size(7); n > 0; n--) {
                            float x;
                            src += flt(x) + ", ";
                            want.fs.append(x);
                        }
                        src += "]\n";
                    }
                    break;
                case 6:
                    if (src.find("ds:") == Str::npos) {
                        src += "ds: [";
                        want.ds.clear();
                        for (u32 n = r.size(7); n > 0; n--) {
                            s32 x = (s32) r.u32();
                            src += std::to_string(x) + " ";
                            want.ds.append(x);
                        }
                        src += "]\n";
                    }
                    break;
                case 7:
                    if (src.find("fixed:") == Str::npos) {
                        src += "fixed: [";
                        for (u32 i = 0; i < 3; i++)
                            src += std::to_string(want.fixed[i] = (u16) r.u32()) + " ";
                        src += "]\n";
                    }
                    break;
                case 8:
                    if (src.find("by:") == Str::npos) {
                        src += "by: {";
                        for (u32 i = 0; i < 3; i++)
                            if (r.chance(1, 2))
                                src += Str(Hues[i]) + ": " + std::to_string(want.by[(v1::Hue) i] = r.u32()) + "; ";
                        src += "}\n";
                    }
                    break;
                case 9:
                    if (!pairs) {
                        pairs = true;
                        src += "pairs: [";
                        for (u32 n = r.size(5); n > 0; n--) {
                            std::pair<float, float> p;
                            Str a = flt(p.first), b = flt(p.second);
                            src += "{v: [" + a + " " + b + "]}";
                            wantPairs.push_back(p);
                        }
                        src += "]\n";
                    }
                    break;
                default:
                    if (src.find("flag:") == Str::npos)
                        src += Str("flag: ") + ((want.flag = r.chance(1, 2)) ? "true" : "false") + "\n";
                    else if (src.find("note:") == Str::npos) {
                        src += "note: \"x\"\n";
                        want.note = "x";
                    }
                    break;
            }
        }
        src += "}";
        u32 wasPairs = t.pairs.numItems();
        Str keep;
        Owned<pylon::Node> node = parse(src, keep);
        VF_CHECK(node && node->isValid(), "numbers-parse", "%s", vf::esc(src).c_str());
        pylon::importInto(AnyObject::bind(&t), node);
        const char* s = vf::esc(src).c_str();
        (void) s;
        Str e = vf::esc(src);
        VF_CHECK(t.f == want.f, "number", "f is %g: %s", (double) t.f, e.c_str());
        VF_CHECK(t.a == want.a && t.b == want.b, "number", "a and b are %u and %u: %s", t.a, t.b, e.c_str());
        VF_CHECK(t.c == want.c && t.d == want.d, "number", "c and d are %u and %d: %s", t.c, t.d, e.c_str());
        VF_CHECK(t.flag == want.flag && t.note == want.note, "number", "flag and note: %s", e.c_str());
        VF_CHECK(t.fs.numItems() == want.fs.numItems() && t.ds.numItems() == want.ds.numItems(), "number-count", "%s", e.c_str());
        for (u32 i = 0; i < want.fs.numItems(); i++)
            VF_CHECK(t.fs[i] == want.fs[i], "number", "fs[%u] is %g: %s", i, (double) t.fs[i], e.c_str());
        for (u32 i = 0; i < want.ds.numItems(); i++)
            VF_CHECK(t.ds[i] == want.ds[i], "number", "ds[%u] is %d: %s", i, t.ds[i], e.c_str());
        for (u32 i = 0; i < 3; i++)
            VF_CHECK(t.fixed[i] == want.fixed[i] && t.by[(v1::Hue) i] == want.by[(v1::Hue) i], "number", "fixed or by %u: %s", i, e.c_str());
        VF_CHECK(t.pairs.numItems() == (pairs ? (u32) wantPairs.size() : wasPairs), "number-count", "%u pairs: %s", t.pairs.numItems(), e.c_str());
        for (u32 i = 0; i < wantPairs.size(); i++)
            VF_CHECK(t.pairs[i].v[0] == wantPairs[i].first && t.pairs[i].v[1] == wantPairs[i].second, "number", "pair %u: %s", i, e.c_str());
        vf::distinct(vf::hashStr(src));
        vf::evals(1);
    }
    VF_CHECK(warm++ < 20 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// Objects whose types the file describes
VF_WORKLOAD(described, 2500, 40000) {
    getTypeDescriptor<u16[2]>(), getTypeDescriptor<u16[4]>(), getTypeDescriptor<float>(), getTypeDescriptor<Array<String>>(), getTypeDescriptor<px::Any>();
    px::Any{};
    s64 live = vf::liveBytes();
    {
        px::Any any;
        for (u32 k = 0; k < 1 + r.below(3); k++) {
            struct Mem {
                Str name;
                u32 kind, n;
            };
            std::vector<Mem> mems;
            Str type = "{key: struct\nname: T" + std::to_string(r.below(99)) + "\nmembers: ";
            bool asObject = r.chance(1, 2);
            type += asObject ? "{" : "[";
            for (u32 i = 0, n = 1 + r.below(5); i < n; i++) {
                Mem m{"m" + std::to_string(i), (u32) r.below(5), 0};
                Str tn = m.kind == 0 ? "float" : m.kind == 1 ? "u16_2" : m.kind == 2 ? "u16_4" : m.kind == 3 ? "Name" : "Names";
                m.n = m.kind == 0 ? 1 : m.kind == 1 ? 2 : 4;
                type += asObject ? m.name + ": " + tn + "\n" : "[" + m.name + ", " + tn + "] ";
                mems.push_back(m);
            }
            type += asObject ? "}}" : "]}";
            std::vector<std::vector<double>> want;
            std::vector<Str> names;
            auto value = [&] {
                Str v = "{";
                for (auto& m : mems) {
                    v += m.name + ": ";
                    if (m.kind >= 3) {
                        Str nm = "n" + std::to_string(r.below(100000000));
                        names.push_back(nm);
                        v += m.kind == 3 ? nm + "\n" : "[" + nm + ", b]\n";
                        continue;
                    }
                    want.emplace_back();
                    if (m.kind > 0)
                        v += "[";
                    for (u32 i = 0; i < m.n; i++) {
                        double d = m.kind == 0 ? (double) r.range(-8000, 8000) / 8 : (double) r.below(65536);
                        want.back().push_back(d);
                        v += vf::fmt("%.3f ", d);
                    }
                    v += m.kind > 0 ? "]\n" : "\n";
                }
                return v + "}";
            };
            u32 n = r.size(6);
            Str src = "{name: x" + std::to_string(k) + "\nobj: {type: " + type + "\nvalue: " + value() + "}\nitems: {type: " + type + "\ndata: [";
            for (u32 i = 0; i < n; i++)
                src += value() + " ";
            src += "]}}";
            {
                Str keep;
                Owned<pylon::Node> node = parse(src, keep);
                VF_CHECK(node && node->isValid(), "described-parse", "%s", vf::esc(src).c_str());
                u32 asked = 0;
                pylon::importInto(AnyObject::bind(&any), node, Functor<pylon::TypeFromName>{[&](StringView name) -> TypeDescriptor* {
                                      asked++;
                                      return name == "Name" ? getTypeDescriptor<String>() : name == "Names" ? getTypeDescriptor<Array<String>>() : nullptr;
                                  }});
                vf::count("types asked for", asked);
                keep.assign(keep.size(), '\x7f');
            }
            Str e = vf::esc(src);
            VF_CHECK(any.name == String::format("x{}", k), "described", "name %s", vf::str(any.name).c_str());
            VF_CHECK(any.items.numItems() == n, "described-count", "%u items, want %u: %s", any.items.numItems(), n, e.c_str());
            u32 w = 0, nm = 0;
            for (u32 i = 0; i <= n; i++) {
                AnyObject obj = i == 0 ? AnyObject{any.obj.owned.data, any.obj.owned.type} : any.items.getItem(i - 1);
                auto* st = obj.type->cast<TypeDescriptor_Struct>();
                for (auto& m : mems) {
                    const TypeDescriptor_Struct::Member* found = nullptr;
                    for (auto& mm : st->members)
                        if (vf::str(mm.name) == m.name)
                            found = &mm;
                    VF_CHECK(found, "described-member", "no member %s: %s", m.name.c_str(), e.c_str());
                    void* p = PLY_PTR_OFFSET(obj.data, found->offset);
                    if (m.kind == 4) {
                        Array<String>& a = *(Array<String>*) p;
                        VF_CHECK(a.numItems() == 2 && vf::str(a[0]) == names[nm], "described", "%s: %s", m.name.c_str(), e.c_str());
                        nm++;
                        continue;
                    }
                    if (m.kind == 3) {
                        VF_CHECK(vf::str(*(String*) p) == names[nm], "described", "%s is %s, want %s", m.name.c_str(), vf::str(*(String*) p).c_str(), names[nm].c_str());
                        nm++;
                        continue;
                    }
                    for (u32 j = 0; j < m.n; j++) {
                        double got = m.kind == 0 ? (double) ((float*) p)[j] : (double) ((u16*) p)[j];
                        VF_CHECK(got == want[w][j], "described", "%s[%u] of object %u is %g, want %g: %s", m.name.c_str(), j, i, got, want[w][j], e.c_str());
                    }
                    w++;
                }
            }
            vf::evals(1);
            vf::distinct(vf::hashStr(src));
        }
    }
    VF_CHECK(warm++ < 20 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// A filter sees every object before it is exported, and replaces those it likes.
struct Filter {
    u32 mask;
    u32 calls = 0;
    std::vector<TypeDescriptor*> types;
};
VF_WORKLOAD(filters, 1500, 30000) {
    s64 live = vf::liveBytes();
    {
        Val v = rtree(r);
        px::Tree t;
        toTree(t, v);
        Filter f;
        f.mask = (u32) r.below(8);
        auto fn = [](Filter* f, AnyObject obj) -> Owned<pylon::Node> {
            f->calls++;
            if ((f->mask & 1) && obj.type == getTypeDescriptor<v1::Hue>())
                return pylon::Node::createText(String::format("hue{}", (u32) * (v1::Hue*) obj.data));
            if ((f->mask & 2) && obj.type == getTypeDescriptor<px::Leaf>())
                return pylon::Node::createText(StringView{"<leaf>"});
            if ((f->mask & 4) && obj.type == getTypeDescriptor<px::Alt>())
                return pylon::Node::createArray();
            return nullptr;
        };
        Owned<pylon::Node> node = pylon::exportObj(AnyObject::bind(&t), pylon::FilterFunc{fn, &f});
        u32 calls = 0;
        auto leaf = [&](Val& l) { // an own or in member, or an item
            if (f.mask & 2) {
                l = text("<leaf>");
                calls += 1;
                return;
            }
            calls += 6;
            if (f.mask & 1)
                for (auto& p : l.m)
                    if (p.first == "hue")
                        p.second.t = p.second.t == "Red" ? "hue0" : p.second.t == "Green" ? "hue1" : "hue2";
        };
        auto alt = [&](Val& a) {
            calls++;
            if (f.mask & 4) {
                a = list(0, [] { return Val{}; });
                return;
            }
            calls++; // the state
            Val& s = a.m[0].second;
            if (a.m[0].first == "One") {
                leaf(s.m[0].second);
                calls++;
                for (auto& row : s.m[1].second.m)
                    calls += 1 + (u32) row.second.m.size();
            } else if (a.m[0].first == "Boxed") {
                calls += 2; // pointer and tail
                leaf(s.m[0].second);
            }
        };
        calls++;
        for (auto& p : v.m) {
            if (p.first == "in") {
                leaf(p.second);
            } else if (p.first == "own") {
                calls++;
                leaf(p.second);
            } else if (p.first == "leaves" || p.first == "owns") {
                calls++;
                for (auto& c : p.second.m) {
                    calls += p.first == "owns";
                    leaf(c.second);
                }
            } else if (p.first == "alt") {
                alt(p.second);
            } else if (p.first == "alts") {
                calls++;
                for (auto& c : p.second.m)
                    alt(c.second);
            } else if (p.first == "hues") {
                calls++;
                for (auto& c : p.second.m) {
                    calls++;
                    if (f.mask & 1)
                        c.second.t = c.second.t == "Red" ? "hue0" : c.second.t == "Green" ? "hue1" : "hue2";
                }
            } else {
                calls += 1 + (u32) p.second.m.size();
            }
        }
        Str got = show(fromNode(node)), want = show(v);
        VF_CHECK(got == want, "filter", "mask %u: %s, want %s", f.mask, got.c_str(), want.c_str());
        VF_CHECK(f.calls == calls, "filter-calls", "mask %u: %u calls, want %u: %s", f.mask, f.calls, calls, want.c_str());
        vf::evals(1);
        vf::distinct(vf::mix(vf::hashStr(want) + f.mask));
    }
    VF_CHECK(warm++ < 20 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}
VF_MAIN()
