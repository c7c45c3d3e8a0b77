// Images: pixels in memory of exactly the size they need, with padding and surroundings that must stay as they were.
#include "plyvf.h"
#include <ply-math/Base.h>
#include <ply-math/Box.h>
#include <ply-math/IntVector.h>
#include <ply-math/Vector.h>
#include <image/Core.h>
#include <image/Image.h>
#include <image-reflect/Core.h>
#include <image-reflect/ImageReflect.h>
#include <ply-reflect/builtin/TypeDescriptor_Enum.h>
#include <cmath>
#include <memory>
using namespace ply;
using image::Format;
using image::Image;
using image::OwnImage;
using vf::Rng;
using vf::Str;

namespace {
struct Kind {
    Format format;
    const char* name;
    u32 bpp, unit;
};
const Kind kinds[] = {{Format::Char, "Char", 1, 1},       {Format::Byte, "Byte", 1, 1},     {Format::Byte2, "Byte2", 2, 1},   {Format::RGBA, "RGBA", 4, 4},
                      {Format::BGRA, "BGRA", 4, 4},       {Format::ARGB, "ARGB", 4, 4},     {Format::ABGR, "ABGR", 4, 4},     {Format::Float, "Float", 4, 4},
                      {Format::S16, "S16", 2, 2},         {Format::U16, "U16", 2, 2},       {Format::S16_2, "S16_2", 4, 4},   {Format::Half, "Half", 2, 2},
                      {Format::Float2, "Float2", 8, 4},   {Format::Half2, "Half2", 4, 4},   {Format::Float4, "Float4", 16, 4}, {Format::Half4, "Half4", 8, 4},
                      {Format::D24S8, "D24S8", 4, 4}};
const u32 numKinds = sizeof(kinds) / sizeof(kinds[0]);
const Kind& kindOf(Format f) {
    for (const Kind& k : kinds)
        if (k.format == f)
            return k;
    abort();
}

// A buffer of exactly (h - 1) * stride + w * bpp bytes, of random content, and a copy of what it should hold.
struct Canvas {
    std::unique_ptr<char[]> mem;
    Str want;
    Image im;
    u32 w, h, stride;
    const Kind* k;
    Canvas(Rng& r, const Kind& kind, u32 w_, u32 h_) : w{w_}, h{h_}, k{&kind} {
        stride = w * k->bpp + (r.chance(2, 3) ? r.below(5) * (k->bpp > 4 ? 4 : k->unit * (1 + r.below(3))) : 0);
        size_t n = (h && w) ? size_t(h - 1) * stride + w * k->bpp : 0;
        mem.reset(new char[n]);
        for (size_t i = 0; i < n; i++)
            mem[i] = (char) r.u32();
        im = Image{mem.get(), (s32) stride, (s32) w, (s32) h, k->format};
        want.assign(mem.get(), n);
    }
    char* wantAt(u32 x, u32 y) {
        return &want[size_t(y) * stride + x * k->bpp];
    }
    void check(const char* what) {
        Str now{mem.get(), want.size()};
        if (now == want)
            return;
        size_t i = 0;
        while (now[i] == want[i])
            i++;
        vf::fail("bytes", "after %s on a %ux%u %s image of stride %u, byte %zu (row %zu, column %zu) is %02x, not %02x", what, w, h, k->name, stride, i,
                 stride ? i / stride : 0, stride ? i % stride : 0, (u8) now[i], (u8) want[i]);
    }
};
// A rectangle of a canvas: the whole, or a crop of it, reached in up to three steps.
struct Part {
    Image im;
    u32 x, y, w, h;
};
Part part(Rng& r, Canvas& c) {
    Part p{c.im, 0, 0, c.w, c.h};
    u32 steps = r.below(4);
    for (u32 i = 0; i < steps; i++) {
        u32 x0 = r.below(p.w), x1 = x0 + 1 + r.below(p.w - x0), y0 = r.below(p.h), y1 = y0 + 1 + r.below(p.h - y0);
        p.im = image::crop(p.im, IntRect{{(s32) x0, (s32) y0}, {(s32) x1, (s32) y1}});
        p.x += x0;
        p.y += y0;
        p.w = x1 - x0;
        p.h = y1 - y0;
    }
    VF_CHECKR(p.im.width == (s32) p.w && p.im.height == (s32) p.h && p.im.stride == (s32) c.stride && p.im.format == c.k->format && p.im.bytespp == c.k->bpp, p,
              "crop", "a crop of %ux%u says it is %dx%d", p.w, p.h, p.im.width, p.im.height);
    return p;
}
// Reads every pixel of an image through its interface.
Str pixels(const Image& im) {
    Str out;
    for (s32 y = 0; y < im.height; y++)
        for (s32 x = 0; x < im.width; x++)
            out.append(im.getPixel(x, y), im.bytespp);
    return out;
}
Str wantPixels(Canvas& c, const Part& p) {
    Str out;
    for (u32 y = 0; y < p.h; y++)
        for (u32 x = 0; x < p.w; x++)
            out.append(c.wantAt(p.x + x, p.y + y), c.k->bpp);
    return out;
}
void noteShape(const Part& p, const Kind& k, const char* op) {
    vf::distinct(vf::hashStr(vf::fmt("%s %u %u %u %u %s", op, p.x, p.y, p.w, p.h, k.name)));
    vf::evals(1);
}
u32 dim(Rng& r) {
    return 1 + (r.chance(1, 10) ? r.below(70) : r.below(9));
}
u32 halfOf(u32 s) {
    u32 e = (s >> 23) & 255;
    if (e < 113)
        return 0;
    return ((s >> 16) & 0x8000) | ((e - 112) << 10) | ((s >> 13) & 0x3ff);
}
u32 randSingle(Rng& r) {
    u32 sign = r.below(2) << 31, mant = r.chance(1, 4) ? 0 : r.chance(1, 4) ? 0x7fffff : r.u32() & 0x7fffff;
    u32 e;
    switch (r.below(5)) {
        case 0:
            e = 0;
            break;
        case 1:
            e = r.below(113);
            break;
        case 2:
            e = 111 + r.below(4);
            break;
        case 3:
            e = 139 + r.below(4);
            break;
        default:
            e = 113 + r.below(30);
            break;
    }
    return sign | (e << 23) | mant;
}
} // namespace

VF_WORKLOAD(pixelStore, 4000, 80000) {
    const Kind& k = kinds[r.below(numKinds)];
    s64 live = vf::liveBytes();
    {
        Canvas c{r, k, dim(r), dim(r)};
        Part p = part(r, c);
        VF_CHECK(pixels(p.im) == wantPixels(c, p), "read", "the pixels read aren't those stored (%s)", k.name);
        u32 n = 1 + r.below(12);
        for (u32 i = 0; i < n; i++) {
            u32 x = r.below(p.w), y = r.below(p.h);
            char v[16];
            for (char& b : v)
                b = (char) r.u32();
            memcpy(p.im.getPixel(x, y), v, k.bpp);
            memcpy(c.wantAt(p.x + x, p.y + y), v, k.bpp);
        }
        c.check("writing pixels");
        const Image& ci = p.im;
        u32 x = r.below(p.w), y = r.below(p.h);
        bool same = false;
        switch (k.bpp) {
            case 1:
                same = memcmp(ci.get<u8>(x, y), c.wantAt(p.x + x, p.y + y), 1) == 0 && p.im.get<u8>(x, y) == ci.get<u8>(x, y);
                break;
            case 2:
                same = (const char*) ci.get<s16>(x, y) == ci.getPixel(x, y) && p.im.get<u16>(x, y) == ci.get<u16>(x, y);
                break;
            case 4:
                same = (const char*) ci.get<u32>(x, y) == ci.getPixel(x, y) && p.im.get<float>(x, y) == ci.get<float>(x, y);
                break;
            case 8:
                same = (const char*) ci.get<Float2>(x, y) == ci.getPixel(x, y);
                break;
            case 16:
                same = (const char*) ci.get<Float4>(x, y) == ci.getPixel(x, y);
                break;
        }
        VF_CHECK(same, "get", "get and getPixel disagree (%s)", k.name);
        VF_CHECK(p.im.dims() == IntVec2(p.w, p.h) && p.im.isSquare() == (p.w == p.h), "dims", "dims");
        VF_CHECK((p.im.isChar() == (k.format == Format::Char)) && (p.im.isByte() == (k.format == Format::Byte)) && (p.im.isByte2() == (k.format == Format::Byte2)) &&
                     (p.im.isFloat() == (k.format == Format::Float)) && (p.im.isHalf() == (k.format == Format::Half)) &&
                     (p.im.isFloat2() == (k.format == Format::Float2)) && (p.im.isHalf2() == (k.format == Format::Half2)) &&
                     (p.im.isFloat4() == (k.format == Format::Float4)) && (p.im.isHalf4() == (k.format == Format::Half4)) &&
                     (p.im.isU16() == (k.format == Format::U16)),
                 "kind", "a %s image takes itself for another format", k.name);
        // An image described by its persistent fields alone gets its pixel size back
        Image loaded = p.im;
        loaded.bytespp = 99;
        loaded.onPostSerialize();
        VF_CHECK(pixels(loaded) == wantPixels(c, p), "loaded", "%s: %u bytes per pixel after loading", k.name, loaded.bytespp);
        noteShape(p, k, "pixels");
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

VF_WORKLOAD(fills, 3000, 60000) {
    const Kind& k = kinds[r.below(numKinds)];
    if (k.bpp != 4 && k.format != Format::Float4)
        return;
    Canvas c{r, k, dim(r), dim(r)};
    Part p = part(r, c);
    char v[16];
    for (char& b : v)
        b = (char) r.u32();
    const char* what;
    if (k.format == Format::Float4) {
        Float4 f{r.below(1000) * 0.25f, -1.f * r.below(1000), 0.f, r.below(9) * 1.f};
        memcpy(v, &f, 16);
        what = "clear(Float4)";
        image::clear(p.im, f);
    } else if (k.format == Format::Float && r.chance(2, 3)) {
        float f = r.below(1000) * -0.125f;
        memcpy(v, &f, 4);
        what = "clear(float)";
        image::clear(p.im, f);
    } else {
        u32 u;
        memcpy(&u, v, 4);
        what = "clear(u32)";
        image::clear(p.im, u);
    }
    for (u32 y = 0; y < p.h; y++)
        for (u32 x = 0; x < p.w; x++)
            memcpy(c.wantAt(p.x + x, p.y + y), v, k.bpp);
    c.check(what);
    noteShape(p, k, what);
}

VF_WORKLOAD(copies, 4000, 80000) {
    const Kind& k = kinds[r.below(numKinds)];
    s64 live = vf::liveBytes();
    {
        Canvas c{r, k, dim(r), dim(r)};
        Part p = part(r, c);
        OwnImage own = image::copy(p.im);
        Str want = wantPixels(c, p);
        VF_CHECK(own.width == (s32) p.w && own.height == (s32) p.h && own.format == k.format && own.data != p.im.data, "copy-shape", "a copy of %ux%u is %dx%d", p.w,
                 p.h, own.width, own.height);
        VF_CHECK(pixels(own) == want, "copy", "a copy of a %ux%u %s image differs", p.w, p.h, k.name);
        VF_CHECK(own.size() == p.w * p.h * k.bpp, "size", "%u bytes", own.size());
        c.check("being copied");
        // Flipped, into another image and back
        Canvas d{r, k, p.w + r.below(3), p.h + r.below(3)};
        u32 dx = r.below(d.w - p.w + 1), dy = r.below(d.h - p.h + 1);
        Image dst = image::crop(d.im, IntRect{{(s32) dx, (s32) dy}, {(s32) (dx + p.w), (s32) (dy + p.h)}});
        image::verticalFlip(dst, p.im);
        for (u32 y = 0; y < p.h; y++)
            memcpy(d.wantAt(dx, dy + y), c.wantAt(p.x, p.y + p.h - 1 - y), p.w * k.bpp);
        d.check("verticalFlip");
        c.check("being flipped elsewhere");
        image::verticalFlip(own, dst);
        VF_CHECK(pixels(own) == want, "flip-twice", "flipped twice, a %ux%u %s image differs", p.w, p.h, k.name);
        if (k.bpp == 4) {
            const Kind* k2 = &kinds[r.below(numKinds)];
            while (k2->bpp != 4)
                k2 = &kinds[r.below(numKinds)];
            Canvas e{r, *k2, p.w + r.below(3), p.h + r.below(3)};
            u32 ex = r.below(e.w - p.w + 1), ey = r.below(e.h - p.h + 1);
            Image edst = image::crop(e.im, IntRect{{(s32) ex, (s32) ey}, {(s32) (ex + p.w), (s32) (ey + p.h)}});
            image::copy32Bit(edst, p.im);
            for (u32 y = 0; y < p.h; y++)
                memcpy(e.wantAt(ex, ey + y), c.wantAt(p.x, p.y + y), p.w * 4);
            e.check("copy32Bit");
            VF_CHECK(edst.format == k2->format, "copy-format", "copy32Bit changed the format");
        }
        VF_CHECK(sameDims(dst, p.im) && sameDims(own, p.im), "same-dims", "sameDims");
        Image wider = image::crop(d.im, IntRect{{0, 0}, {(s32) d.w, (s32) d.h}});
        VF_CHECK(sameDims(wider, p.im) == (d.w == p.w && d.h == p.h), "same-dims", "sameDims of %ux%u and %ux%u", d.w, d.h, p.w, p.h);
        noteShape(p, k, "copy");
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// Images that own their memory: moved, replaced, released, given new shapes.
VF_WORKLOAD(owners, 3000, 60000) {
    s64 live = vf::liveBytes();
    {
        struct Model {
            u32 w = 0, h = 0;
            const Kind* k = nullptr;
            Str px;
        };
        std::vector<OwnImage> ims(3);
        std::vector<Model> ms(3);
        auto fill = [&](u32 i) {
            Model& m = ms[i];
            m.px.clear();
            for (u32 y = 0; y < m.h; y++)
                for (u32 x = 0; x < m.w; x++) {
                    char* at = ims[i].getPixel(x, y);
                    for (u32 b = 0; b < m.k->bpp; b++)
                        at[b] = (char) r.u32();
                    m.px.append(at, m.k->bpp);
                }
        };
        u32 steps = 2 + r.below(14);
        Str trail;
        for (u32 s = 0; s < steps; s++) {
            u32 i = r.below(3), j = r.below(3), op = r.below(6);
            trail += vf::fmt(" %u:%u,%u", op, i, j);
            Model fresh;
            fresh.w = dim(r);
            fresh.h = r.chance(1, 20) ? 0 : dim(r);
            fresh.k = &kinds[r.below(numKinds)];
            switch (op) {
                case 0:
                    ims[i].alloc(fresh.w, fresh.h, fresh.k->format);
                    ms[i] = fresh;
                    fill(i);
                    break;
                case 1:
                    ims[i] = OwnImage{(s32) fresh.w, (s32) fresh.h, fresh.k->format};
                    ms[i] = fresh;
                    fill(i);
                    break;
                case 2:
                    ims[i] = std::move(ims[j]);
                    if (i != j) {
                        ms[i] = ms[j];
                        ms[j] = {};
                    }
                    break;
                case 3: {
                    char* data = ims[i].release();
                    VF_CHECK((data != nullptr) == (ms[i].k != nullptr), "release", "released %p (%s)", data, trail.c_str());
                    if (data) {
                        if (ms[i].k->bpp * ms[i].w * ms[i].h)
                            VF_CHECK(Str(data, ms[i].px.size()) == ms[i].px, "release", "released other pixels (%s)", trail.c_str());
                        PLY_HEAP.free(data);
                    }
                    ms[i] = {};
                    break;
                }
                case 4: {
                    OwnImage moved{std::move(ims[i])};
                    VF_CHECK(!ims[i].data && ims[i].width == 0 && ims[i].height == 0, "moved-from", "a moved image keeps %dx%d", ims[i].width, ims[i].height);
                    ims[i] = std::move(moved);
                    break;
                }
                default:
                    if (ms[j].k && ms[j].h) {
                        ims[i] = image::copy(ims[j]);
                        ms[i] = ms[j];
                    }
                    break;
            }
            for (u32 q = 0; q < 3; q++) {
                const Model& m = ms[q];
                VF_CHECK(ims[q].width == (s32) m.w && ims[q].height == (s32) m.h && ims[q].format == (m.k ? m.k->format : Format::Unknown) &&
                             ims[q].bytespp == (m.k ? m.k->bpp : 0),
                         "shape", "image %u is %dx%d, not %ux%u (%s)", q, ims[q].width, ims[q].height, m.w, m.h, trail.c_str());
                VF_CHECK(pixels(ims[q]) == m.px, "pixels", "image %u changed (%s)", q, trail.c_str());
            }
            vf::evals(3);
        }
        vf::distinct(vf::hashStr(trail));
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

VF_WORKLOAD(halves, 3000, 60000) {
    struct Pair {
        Format from, to;
        u32 n;
    };
    static const Pair pairs[] = {{Format::Float, Format::Half, 1}, {Format::Float2, Format::Half2, 2}, {Format::Float4, Format::Half4, 4}};
    const Pair& pr = pairs[r.below(3)];
    Canvas c{r, kindOf(pr.from), dim(r), dim(r)};
    for (u32 y = 0; y < c.h; y++)
        for (u32 x = 0; x < c.w * pr.n; x++) {
            u32 s = randSingle(r);
            memcpy(c.mem.get() + y * c.stride + x * 4, &s, 4);
            memcpy(&c.want[y * c.stride + x * 4], &s, 4);
        }
    Part p = part(r, c);
    Canvas d{r, kindOf(pr.to), p.w + r.below(3), p.h + r.below(3)};
    u32 dx = r.below(d.w - p.w + 1), dy = r.below(d.h - p.h + 1);
    Image dst = image::crop(d.im, IntRect{{(s32) dx, (s32) dy}, {(s32) (dx + p.w), (s32) (dy + p.h)}});
    if (pr.n == 1)
        image::convertFloatToHalf(dst, p.im);
    else if (pr.n == 2)
        image::convertFloat2ToHalf2(dst, p.im);
    else
        image::convertFloat4ToHalf4(dst, p.im);
    for (u32 y = 0; y < p.h; y++)
        for (u32 x = 0; x < p.w * pr.n; x++) {
            u32 s;
            memcpy(&s, c.wantAt(p.x, p.y + y) + x * 4, 4);
            u16 want = (u16) halfOf(s), got;
            char* at = d.mem.get() + (dy + y) * d.stride + dx * 2 * pr.n + x * 2;
            memcpy(&got, at, 2);
            if (want == 0 && got == 0x8000)
                want = got;
            VF_CHECK(got == want, "half", "%08x became %04x, not %04x", s, got, want);
            memcpy(&d.want[(dy + y) * d.stride + dx * 2 * pr.n + x * 2], &want, 2);
        }
    d.check("a conversion to halves");
    c.check("being converted");
    noteShape(p, *d.k, "half");
}

VF_WORKLOAD(gamma, 2000, 40000) {
    const Kind& from = kinds[r.below(2)];
    const Kind* to = &kinds[3 + r.below(4)];
    Canvas c{r, from, dim(r), dim(r)};
    Part p = part(r, c);
    Canvas d{r, *to, p.w + r.below(3), p.h + r.below(3)};
    u32 dx = r.below(d.w - p.w + 1), dy = r.below(d.h - p.h + 1);
    Image dst = image::crop(d.im, IntRect{{(s32) dx, (s32) dy}, {(s32) (dx + p.w), (s32) (dy + p.h)}});
    image::linearToSRGB(dst, p.im);
    for (u32 y = 0; y < p.h; y++)
        for (u32 x = 0; x < p.w; x++) {
            u32 v = (u8) *c.wantAt(p.x + x, p.y + y), got;
            memcpy(&got, d.mem.get() + (dy + y) * d.stride + (dx + x) * 4, 4);
            double exact = std::pow(v / 255.0, 1 / 2.2) * 255.0;
            u32 g = got & 255;
            VF_CHECK(std::fabs(g - exact) <= 0.51 && got == (g * 0x10101 | (255 - v) << 24), "gamma", "level %u became %08x, not about %u", v, got, (u32) std::lround(exact));
            memcpy(d.wantAt(dx + x, dy + y), &got, 4);
        }
    d.check("linearToSRGB");
    c.check("being converted");
    noteShape(p, *to, "gamma");
}

// Packed colours and the names formats are stored under.
VF_WORKLOAD(packed, 2000, 40000) {
    Int4<u8> color{(u8) r.u32(), (u8) r.u32(), (u8) r.u32(), (u8) r.u32()};
    char room[8];
    Int4<u8>* odd = reinterpret_cast<Int4<u8>*>(room + r.below(4));
    *odd = color;
    u32 rgba = image::toRGBA(*odd), abgr = image::toABGR(*odd);
    VF_CHECK(rgba == (color.x | color.y << 8 | color.z << 16 | u32(color.w) << 24), "rgba", "toRGBA(%u,%u,%u,%u) is %08x", color.x, color.y, color.z, color.w, rgba);
    VF_CHECK(abgr == (color.w | color.z << 8 | color.y << 16 | u32(color.x) << 24), "abgr", "toABGR(%u,%u,%u,%u) is %08x", color.x, color.y, color.z, color.w, abgr);
    if (idx == 0) {
        TypeDescriptor_Enum* e = getTypeDescriptor<Format>()->cast<TypeDescriptor_Enum>();
        VF_CHECK(e->identifiers.numItems() == numKinds + 1, "names", "%u formats", e->identifiers.numItems());
        for (const auto& id : e->identifiers) {
            if (id.value == 0)
                continue;
            const Kind& k = kindOf((Format) id.value);
            VF_CHECK(vf::str(id.name) == k.name, "names", "%s is stored as %s", k.name, vf::str(id.name).c_str());
        }
        vf::count("formats named", e->identifiers.numItems());
    }
    vf::distinct(rgba);
    vf::evals(2);
}

VF_MAIN()
