// Two versions of a family of reflected types, random values of the first, and what each value means in the second.
#pragma once
#include "plyvf.h"
#include <ply-reflect/TypeDescriptor.h>
#include <ply-reflect/AnyOwnedObject.h>
#include <ply-runtime/container/FixedArray.h>
#include <ply-runtime/container/EnumIndexedArray.h>
#include <ply-runtime/container/Switch.h>
using namespace ply;
using vf::Str;

namespace v1 {
enum class Hue : u8 { Red, Green, Blue, Count };
enum class Wide : u32 { None = 0, Some = 70000, All = 0xffffffff };
enum class Mid : u16 { Low = 3, High = 40000 };
} // namespace v1
PLY_DECLARE_TYPE_DESCRIPTOR(v1::Hue)
PLY_DECLARE_TYPE_DESCRIPTOR(v1::Wide)
PLY_DECLARE_TYPE_DESCRIPTOR(v1::Mid)
namespace v1 {
struct Leaf {
    PLY_REFLECT()
    String name;
    bool flag = false;
    Hue hue = Hue::Red;
    Wide wide = Wide::None;
    Mid mid = Mid::Low;
    s8 a = 0;
    s16 b = 0;
    s32 c = 0;
    s64 d = 0;
    u8 e = 0;
    u16 f = 0;
    u32 g = 0;
    u64 h = 0;
    float x = 0;
    double y = 0;
};
struct Pick {
    struct Text {
        PLY_REFLECT()
        String s;
    };
    struct Many {
        PLY_REFLECT()
        Array<String> items;
        u32 tag = 0;
    };
    struct Gone {
        PLY_REFLECT()
        Array<Leaf> leaves;
    };
    struct Child {
        PLY_REFLECT()
        Owned<Leaf> leaf;
        float w = 0;
    };
    enum class ID : u16 { Text, Many, Gone, Child, Count };
    union Storage_ {
        Text text;
        Many many;
        Gone gone;
        Child child;
        PLY_INLINE Storage_() {
        }
        PLY_INLINE ~Storage_() {
        }
    };
    SWITCH_FOOTER(Pick, Text)
    SWITCH_ACCESSOR(Text, text)
    SWITCH_ACCESSOR(Many, many)
    SWITCH_ACCESSOR(Gone, gone)
    SWITCH_ACCESSOR(Child, child)
    PLY_SWITCH_REFLECT()
};
struct Tree {
    PLY_REFLECT()
    String name;
    Array<Leaf> leaves;
    Array<Array<u16>> grid;
    FixedArray<u16, 3> fixed;
    Owned<Leaf> own;
    Array<Owned<Leaf>> owns;
    EnumIndexedArray<float, Hue> byHue;
    Pick pick;
    Array<Pick> picks;
    Leaf lost;
    Array<Hue> bits;
    u32 last = 0;
};
} // namespace v1
namespace v2 {
enum class Hue : u8 { Extra, Blue, Red, Count };
enum class Wide : u32 { All = 5, None = 9, Some = 1 };
} // namespace v2
PLY_DECLARE_TYPE_DESCRIPTOR(v2::Hue)
PLY_DECLARE_TYPE_DESCRIPTOR(v2::Wide)
namespace v2 {
struct Leaf {
    PLY_REFLECT()
    double y = -1;
    s16 a = -1;
    s32 b = -1;
    s64 c = -1;
    u16 e = 1;
    u32 f = 1;
    u64 g = 1;
    double x = -1;
    Array<u32> extra;
    Wide wide = Wide::All;
    String name;
    u8 flag = 9;
    Hue hue = Hue::Extra;
};
struct Pick {
    struct Child {
        PLY_REFLECT()
        double w = -1;
        Owned<Leaf> leaf;
    };
    struct New {
        PLY_REFLECT()
        String unused;
    };
    struct Text {
        PLY_REFLECT()
        u32 added = 77;
        String s;
    };
    struct Many {
        PLY_REFLECT()
        Array<String> items;
    };
    enum class ID : u16 { New, Child, Many, Text, Count };
    union Storage_ {
        Child child;
        New new_;
        Text text;
        Many many;
        PLY_INLINE Storage_() {
        }
        PLY_INLINE ~Storage_() {
        }
    };
    SWITCH_FOOTER(Pick, New)
    SWITCH_ACCESSOR(Child, child)
    SWITCH_ACCESSOR(New, new_)
    SWITCH_ACCESSOR(Text, text)
    SWITCH_ACCESSOR(Many, many)
    PLY_SWITCH_REFLECT()
};
struct Tree {
    PLY_REFLECT()
    u64 last = 1;
    EnumIndexedArray<float, Hue> byHue;
    Array<Pick> picks;
    Owned<Leaf> own;
    Array<Owned<Leaf>> owns;
    Array<Leaf> leaves;
    FixedArray<u32, 3> fixed;
    Pick pick;
    Array<Array<u32>> grid;
    String added;
    Owned<Leaf> addedOwn;
};
} // namespace v2

#define VF_ENUM3(ns, T, A, B, C) \
    PLY_ENUM_BEGIN(ns::, T) \
    PLY_ENUM_IDENTIFIER(A) \
    PLY_ENUM_IDENTIFIER(B) \
    PLY_ENUM_IDENTIFIER(C) \
    PLY_ENUM_END()
VF_ENUM3(v1, Hue, Red, Green, Blue)
VF_ENUM3(v1, Wide, None, Some, All)
PLY_ENUM_BEGIN(v1::, Mid)
PLY_ENUM_IDENTIFIER(Low)
PLY_ENUM_IDENTIFIER(High)
PLY_ENUM_END()
PLY_ENUM_BEGIN(v2::, Hue)
PLY_ENUM_IDENTIFIER(Extra)
PLY_ENUM_IDENTIFIER(Blue)
PLY_ENUM_IDENTIFIER(Red)
PLY_ENUM_END()
VF_ENUM3(v2, Wide, All, None, Some)
#define M(x) PLY_STRUCT_MEMBER(x)
PLY_STRUCT_BEGIN(v1::Leaf)
M(name) M(flag) M(hue) M(wide) M(mid) M(a) M(b) M(c) M(d) M(e) M(f) M(g) M(h) M(x) M(y) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v1::Pick::Text)
M(s) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v1::Pick::Many)
M(items) M(tag) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v1::Pick::Gone)
M(leaves) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v1::Pick::Child)
M(leaf) M(w) PLY_STRUCT_END()
SWITCH_TABLE_BEGIN(v1::Pick)
SWITCH_TABLE_STATE(v1::Pick, Text)
SWITCH_TABLE_STATE(v1::Pick, Many)
SWITCH_TABLE_STATE(v1::Pick, Gone)
SWITCH_TABLE_STATE(v1::Pick, Child)
SWITCH_TABLE_END(v1::Pick)
PLY_SWITCH_BEGIN(v1::Pick)
PLY_SWITCH_MEMBER(Text)
PLY_SWITCH_MEMBER(Many)
PLY_SWITCH_MEMBER(Gone)
PLY_SWITCH_MEMBER(Child)
PLY_SWITCH_END()
PLY_STRUCT_BEGIN(v1::Tree)
M(name) M(leaves) M(grid) M(fixed) M(own) M(owns) M(byHue) M(pick) M(picks) M(lost) M(bits) M(last) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v2::Leaf)
M(y) M(a) M(b) M(c) M(e) M(f) M(g) M(x) M(extra) M(wide) M(name) M(flag) M(hue) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v2::Pick::Child)
M(w) M(leaf) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v2::Pick::New)
M(unused) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v2::Pick::Text)
M(added) M(s) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(v2::Pick::Many)
M(items) PLY_STRUCT_END()
SWITCH_TABLE_BEGIN(v2::Pick)
SWITCH_TABLE_STATE(v2::Pick, New)
SWITCH_TABLE_STATE(v2::Pick, Child)
SWITCH_TABLE_STATE(v2::Pick, Many)
SWITCH_TABLE_STATE(v2::Pick, Text)
SWITCH_TABLE_END(v2::Pick)
PLY_SWITCH_BEGIN(v2::Pick)
PLY_SWITCH_MEMBER(New)
PLY_SWITCH_MEMBER(Child)
PLY_SWITCH_MEMBER(Many)
PLY_SWITCH_MEMBER(Text)
PLY_SWITCH_END()
PLY_STRUCT_BEGIN(v2::Tree)
M(last) M(byHue) M(picks) M(own) M(owns) M(leaves) M(fixed) M(pick) M(grid) M(added) M(addedOwn) PLY_STRUCT_END()
#undef M

namespace vf {
inline String rstr(Rng& r) {
    return String{view(r.chance(1, 2) ? randBytes(r, 12) : r.chance(1, 20) ? Str(400, 'z') : randUtf8(r, 6))};
}
inline float rfloat(Rng& r) {
    return r.chance(1, 2) ? (float) r.range(-1000, 1000) / 8 : (float) (r.unit() * 1e9);
}
inline v1::Leaf leaf(Rng& r) {
    v1::Leaf l;
    l.name = rstr(r);
    l.flag = r.chance(1, 2);
    l.hue = (v1::Hue) r.below(3);
    static const v1::Wide ws[] = {v1::Wide::None, v1::Wide::Some, v1::Wide::All};
    l.wide = ws[r.below(3)];
    l.mid = r.chance(1, 2) ? v1::Mid::Low : v1::Mid::High;
    l.a = (s8) r.u32();
    l.b = (s16) r.u32();
    l.c = (s32) r.u32();
    l.d = (s64) r.u64();
    l.e = (u8) r.u32();
    l.f = (u16) r.u32();
    l.g = r.u32();
    l.h = r.u64();
    l.x = rfloat(r);
    l.y = r.unit() * 1e12 - 5e11;
    return l;
}
inline v1::Leaf* newLeaf(Rng& r) {
    return new v1::Leaf{leaf(r)};
}
inline v1::Pick pick(Rng& r) {
    v1::Pick p;
    switch (r.below(4)) {
        case 0:
            p.text().switchTo()->s = rstr(r);
            break;
        case 1: {
            auto m = p.many().switchTo();
            for (u32 n = r.size(5); n > 0; n--)
                m->items.append(rstr(r));
            m->tag = r.u32();
            break;
        }
        case 2: {
            auto m = p.gone().switchTo();
            for (u32 n = r.size(4); n > 0; n--)
                m->leaves.append(leaf(r));
            break;
        }
        default: {
            auto m = p.child().switchTo();
            m->leaf = newLeaf(r);
            m->w = rfloat(r);
            break;
        }
    }
    return p;
}
inline void fill(Rng& r, v1::Tree& t) {
    t.name = rstr(r);
    for (u32 n = r.size(5); n > 0; n--)
        t.leaves.append(leaf(r));
    for (u32 n = r.size(5); n > 0; n--) {
        Array<u16>& g = t.grid.append();
        for (u32 k = r.size(8); k > 0; k--)
            g.append((u16) r.u32());
    }
    for (u32 i = 0; i < 3; i++) {
        t.fixed[i] = (u16) r.u32();
        t.byHue[(v1::Hue) i] = rfloat(r);
    }
    t.own = newLeaf(r);
    for (u32 n = r.size(5); n > 0; n--)
        t.owns.append(newLeaf(r));
    t.pick = pick(r);
    for (u32 n = r.size(5); n > 0; n--)
        t.picks.append(pick(r));
    t.lost = leaf(r);
    for (u32 n = r.chance(1, 20) ? 200 + r.below(500) : r.size(9); n > 0; n--)
        t.bits.append((v1::Hue) r.below(3));
    t.last = r.u32();
}

// Canonical text of a value
inline Str q(const String& s) {
    return "\"" + esc(str(s)) + "\" ";
}
inline Str num(double v) {
    return fmt("%.17g ", v);
}
inline Str num(u64 v) {
    return std::to_string(v) + " ";
}
inline Str num(s64 v) {
    return std::to_string(v) + " ";
}
template <class A, class F>
Str all(const A& arr, F&& f) {
    Str o = "[";
    for (u32 i = 0; i < arr.numItems(); i++)
        o += f(arr[i]);
    return o + "] ";
}
inline Str dump(const v1::Leaf& l) {
    return "(" + q(l.name) + num((u64) l.flag) + num((u64) l.hue) + num((u64) l.wide) + num((u64) l.mid) + num((s64) l.a) + num((s64) l.b) + num((s64) l.c) +
           num(l.d) + num((u64) l.e) + num((u64) l.f) + num((u64) l.g) + num(l.h) + num((double) l.x) + num(l.y) + ")";
}
inline Str dump(const v1::Pick& p) {
    switch (p.id) {
        case v1::Pick::ID::Text:
            return "text " + q(p.text()->s);
        case v1::Pick::ID::Many:
            return "many " + all(p.many()->items, [](const String& s) { return q(s); }) + num((u64) p.many()->tag);
        case v1::Pick::ID::Gone:
            return "gone " + all(p.gone()->leaves, [](const v1::Leaf& l) { return dump(l); });
        case v1::Pick::ID::Child:
            return "child " + (p.child()->leaf ? dump(*p.child()->leaf) : Str("null ")) + num((double) p.child()->w);
        default:
            return "?";
    }
}
inline Str dump(const v2::Leaf& l);
template <class L>
Str dumpOwned(const Owned<L>& o) {
    return o ? dump(*o) : Str("null ");
}
inline Str dump(const v1::Tree& t) {
    Str o = q(t.name) + all(t.leaves, [](const v1::Leaf& l) { return dump(l); }) +
            all(t.grid, [](const Array<u16>& g) { return all(g, [](u16 v) { return num((u64) v); }); }) + dumpOwned(t.own) +
            all(t.owns, [](const Owned<v1::Leaf>& l) { return dumpOwned(l); }) + dump(t.pick) + all(t.picks, [](const v1::Pick& p) { return dump(p); }) +
            dump(t.lost) + all(t.bits, [](v1::Hue b) { return num((u64) b); }) + num((u64) t.last);
    for (u32 i = 0; i < 3; i++)
        o += num((u64) t.fixed[i]) + num((double) t.byHue[(v1::Hue) i]);
    return o;
}
inline Str dump(const v2::Leaf& l) {
    return "(" + q(l.name) + num((u64) l.flag) + num((u64) l.hue) + num((u64) l.wide) + num((s64) l.a) + num((s64) l.b) + num((s64) l.c) + num((u64) l.e) +
           num((u64) l.f) + num((u64) l.g) + num(l.x) + num(l.y) + num((u64) l.extra.numItems()) + ")";
}
inline Str dump(const v2::Pick& p) {
    switch (p.id) {
        case v2::Pick::ID::Text:
            return "text " + q(p.text()->s) + num((u64) p.text()->added);
        case v2::Pick::ID::Many:
            return "many " + all(p.many()->items, [](const String& s) { return q(s); });
        case v2::Pick::ID::New:
            return "new " + q(p.new_()->unused);
        case v2::Pick::ID::Child:
            return "child " + dumpOwned(p.child()->leaf) + num((double) p.child()->w);
        default:
            return "?";
    }
}
inline Str dump(const v2::Tree& t) {
    Str o = all(t.leaves, [](const v2::Leaf& l) { return dump(l); }) +
            all(t.grid, [](const Array<u32>& g) { return all(g, [](u32 v) { return num((u64) v); }); }) + dumpOwned(t.own) +
            all(t.owns, [](const Owned<v2::Leaf>& l) { return dumpOwned(l); }) + dump(t.pick) + all(t.picks, [](const v2::Pick& p) { return dump(p); }) +
            num((u64) t.last) + q(t.added) + (t.addedOwn ? "set" : "null");
    for (u32 i = 0; i < 3; i++)
        o += num((u64) t.fixed[i]);
    o += num((double) t.byHue[v2::Hue::Blue]) + num((double) t.byHue[v2::Hue::Red]);
    return o;
}
// What the first version's value is in the second version
inline Str later(const v1::Leaf& l) {
    u64 hue = l.hue == v1::Hue::Red ? (u64) v2::Hue::Red : l.hue == v1::Hue::Blue ? (u64) v2::Hue::Blue : (u64) v2::Hue::Extra;
    u64 wide = l.wide == v1::Wide::All ? 5 : l.wide == v1::Wide::None ? 9 : 1;
    return "(" + q(l.name) + num((u64) l.flag) + num(hue) + num(wide) + num((s64) l.a) + num((s64) l.b) + num((s64) l.c) + num((u64) l.e) + num((u64) l.f) +
           num((u64) l.g) + num((double) l.x) + num(l.y) + num((u64) 0) + ")";
}
inline Str later(const v1::Pick& p) {
    switch (p.id) {
        case v1::Pick::ID::Text:
            return "text " + q(p.text()->s) + num((u64) 77);
        case v1::Pick::ID::Many:
            return "many " + all(p.many()->items, [](const String& s) { return q(s); });
        case v1::Pick::ID::Gone:
            return "new " + q(String{});
        default:
            return "child " + later(*p.child()->leaf) + num((double) p.child()->w);
    }
}
inline Str later(const v1::Tree& t) {
    Str o = all(t.leaves, [](const v1::Leaf& l) { return later(l); }) +
            all(t.grid, [](const Array<u16>& g) { return all(g, [](u16 v) { return num((u64) v); }); }) + later(*t.own) +
            all(t.owns, [](const Owned<v1::Leaf>& l) { return later(*l); }) + later(t.pick) + all(t.picks, [](const v1::Pick& p) { return later(p); }) +
            num((u64) t.last) + q(String{}) + "null";
    for (u32 i = 0; i < 3; i++)
        o += num((u64) t.fixed[i]);
    o += num((double) t.byHue[v1::Hue::Blue]) + num((double) t.byHue[v1::Hue::Red]);
    return o;
}
} // namespace vf
