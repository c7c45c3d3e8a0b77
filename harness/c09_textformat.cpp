// Importers, exporters, converters and format detection against whole-text reference conversions.
#include "pipevf.h"
#include <ply-runtime/io/text/TextFormat.h>
#include <ply-runtime/io/text/TextConverter.h>
#include <ply-runtime/io/text/NewLineFilter.h>
#include <ply-runtime/filesystem/FileSystem.h>
using namespace ply;
using vf::Str;
using E = TextFormat::Encoding;
using NL = TextFormat::NewLine;

static const char* encName(E e) {
    return e == E::Bytes ? "bytes" : e == E::UTF8 ? "utf8" : e == E::UTF16_be ? "utf16be" : "utf16le";
}

// ---- reference conversions over whole texts ----
static void put8(Str& s, uint32_t c) {
    if (c < 0x80)
        s += (char) c;
    else if (c < 0x800) {
        s += (char) (0xC0 | (c >> 6));
        s += (char) (0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += (char) (0xE0 | (c >> 12));
        s += (char) (0x80 | ((c >> 6) & 63));
        s += (char) (0x80 | (c & 63));
    } else {
        s += (char) (0xF0 | (c >> 18));
        s += (char) (0x80 | ((c >> 12) & 63));
        s += (char) (0x80 | ((c >> 6) & 63));
        s += (char) (0x80 | (c & 63));
    }
}
static std::vector<uint32_t> get8(const Str& s) {
    std::vector<uint32_t> v;
    for (size_t i = 0; i < s.size();) {
        unsigned char a = s[i];
        auto cont = [&](size_t k) { return i + k < s.size() && ((unsigned char) s[i + k] & 0xC0) == 0x80; };
        auto at = [&](size_t k) { return (uint32_t)((unsigned char) s[i + k] & 63); };
        if (a >= 0xC2 && a < 0xE0 && cont(1)) {
            v.push_back((a & 31) << 6 | at(1));
            i += 2;
        } else if (a >= 0xE0 && a < 0xF0 && cont(1) && cont(2) && (a > 0xE0 || (unsigned char) s[i + 1] >= 0xA0)) {
            v.push_back((a & 15) << 12 | at(1) << 6 | at(2));
            i += 3;
        } else if (a >= 0xF0 && a < 0xF8 && cont(1) && cont(2) && cont(3) && (a > 0xF0 || (unsigned char) s[i + 1] >= 0x90)) {
            v.push_back((a & 7) << 18 | at(1) << 12 | at(2) << 6 | at(3));
            i += 4;
        } else {
            v.push_back(a);
            i++;
        }
    }
    return v;
}
static void put16(Str& s, uint32_t c, bool be) {
    auto unit = [&](uint32_t u) {
        s += (char) (be ? u >> 8 : u);
        s += (char) (be ? u : u >> 8);
    };
    if (c < 0x10000)
        unit(c);
    else {
        c -= 0x10000;
        unit(0xD800 + (c >> 10));
        unit(0xDC00 + (c & 0x3FF));
    }
}
// A trailing odd byte is dropped.
static std::vector<uint32_t> get16(const Str& s, bool be) {
    std::vector<uint32_t> u, v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) {
        unsigned char a = s[i], b = s[i + 1];
        u.push_back(be ? a << 8 | b : b << 8 | a);
    }
    for (size_t i = 0; i < u.size(); i++) {
        if (u[i] >= 0xD800 && u[i] < 0xDC00 && i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000) {
            v.push_back(0x10000 + ((u[i] - 0xD800) << 10) + (u[i + 1] - 0xDC00));
            i++;
        } else
            v.push_back(u[i]);
    }
    return v;
}
static Str bomOf(const TextFormat& f) {
    if (!f.bom)
        return Str();
    return f.encoding == E::UTF8 ? Str("\xef\xbb\xbf") : f.encoding == E::UTF16_be ? Str("\xfe\xff") : Str("\xff\xfe");
}
static Str noCR(const Str& s) {
    Str o;
    for (char c : s)
        if (c != '\r')
            o += c;
    return o;
}
static Str crlf(const Str& s) {
    Str o;
    for (char c : s) {
        if (c == '\n')
            o += '\r';
        o += c;
    }
    return o;
}
// What a file in format f holding UTF-8 text t contains.
static Str encodeFile(const Str& t, const TextFormat& f) {
    Str body = noCR(t);
    if (f.newLine == NL::CRLF)
        body = crlf(body);
    Str o = bomOf(f);
    if (f.encoding == E::UTF8)
        return o + body;
    for (uint32_t c : get8(body)) {
        if (f.encoding == E::Bytes)
            o += (char) (c < 256 ? c : 0x95);
        else
            put16(o, c, f.encoding == E::UTF16_be);
    }
    return o;
}
// What importing file contents b yields.
static Str decodeFile(const Str& b, const TextFormat& f) {
    Str body = b, bom = bomOf(f);
    if (!bom.empty() && body.compare(0, bom.size(), bom) == 0)
        body = body.substr(bom.size());
    if (f.encoding == E::UTF8)
        return noCR(body);
    Str o;
    if (f.encoding == E::Bytes)
        for (unsigned char c : body)
            put8(o, c);
    else
        for (uint32_t c : get16(body, f.encoding == E::UTF16_be))
            put8(o, c);
    return noCR(o);
}

static TextFormat randFormat(vf::Rng& r) {
    TextFormat f;
    f.encoding = (E) r.below(4);
    f.newLine = r.chance(1, 2) ? NL::CRLF : NL::LF;
    f.bom = f.encoding != E::Bytes && r.chance(1, 2);
    return f;
}
static Str fmtName(const TextFormat& f) {
    return Str(encName(f.encoding)) + (f.newLine == NL::CRLF ? " crlf" : " lf") + (f.bom ? " bom" : "");
}

// Text with newlines placed so that characters and CRLFs straddle every buffer edge.
static Str randText(vf::Rng& r, bool latin1) {
    Str s;
    uint32_t lines = 1 + r.size(12);
    for (uint32_t l = 0; l < lines; l++) {
        uint32_t n = r.chance(1, 8) ? r.size(3000) : r.size(60);
        int kind = r.below(5);
        for (uint32_t i = 0; i < n; i++) {
            uint32_t c;
            if (latin1)
                c = kind == 0 ? 0xA0 + r.below(96) : r.chance(1, 3) ? 0x80 + r.below(128) : 32 + r.below(95);
            else if (kind == 0)
                c = 0x10000 + r.below(0x100000);
            else if (kind == 1)
                c = 0x4E00 + r.below(0x5000);
            else if (kind == 2)
                c = r.pick({0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xD7FFu, 0xE000u, 0xFEFFu, 0xFFFFu, 0x10000u, 0x10FFFFu,
                            0x0A0Au, 0x0D0Du, 0x0D0Au, 0x0Au << 8, 0u, 0x0Du << 8});
            else
                c = 32 + r.below(95);
            put8(s, c);
        }
        if (l + 1 < lines || r.chance(1, 2))
            s += r.chance(1, 10) ? "\n\n" : "\n";
    }
    return s;
}

// Reads everything by a mixture of the ways the stream offers.
static Str drain(InStream* ins, vf::Rng& r) {
    Str o;
    int style = r.below(4);
    uint32_t guard = 0;
    for (;;) {
        if (++guard > 2000000) {
            vf::fail("hang", "reading does not reach the end");
            break;
        }
        int s = style == 3 ? r.below(3) : style;
        if (s == 0) {
            if (!ins->tryMakeBytesAvailable())
                break;
            u32 n = 1 + r.below(ins->numBytesAvailable());
            o.append(ins->curByte, n);
            ins->advanceByte(n);
        } else if (s == 1) {
            u8 c = ins->readByte();
            if (ins->atEOF())
                break;
            o += (char) c;
        } else {
            u32 want = 1 + r.below(90);
            u32 got = ins->tryMakeBytesAvailable(want);
            if (got == 0)
                break;
            u32 n = got < want ? got : want;
            o.append(ins->curByte, n);
            ins->advanceByte(n);
        }
    }
    return o;
}

static Owned<InStream> makeSource(const Str& bytes, vf::Rng& r) {
    if (r.chance(1, 6)) {
        // nothing
    }
    u32 piece = r.pick({0u, 1u, 2u, 3u, 5u, 17u, 128u, 1000u});
    return Owned<InStream>::create(OptionallyOwned<InPipe>{Owned<InPipe>{new vf::SrcPipe(bytes, r.u64(), piece)}},
                                   r.pick({7u, 8u, 12u}));
}

static Str firstDiff(const Str& a, const Str& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    Str o = "sizes " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ", differ at " + std::to_string(i);
    size_t k = i > 4 ? i - 4 : 0;
    o += ": " + vf::esc(a.data() + k, std::min<size_t>(12, a.size() - k)) + " vs " +
         vf::esc(b.data() + k, std::min<size_t>(12, b.size() - k));
    return o;
}

// Import: any bytes, any format, any splitting.
VF_WORKLOAD(importAny, 30000, 120000) {
    TextFormat f = randFormat(r);
    Str b;
    int kind = r.below(4);
    if (kind == 0)
        b = vf::randBytes(r, 3000);
    else if (kind == 1) {
        b = encodeFile(randText(r, false), f);
        // damage it
        for (uint32_t k = r.below(4); k > 0 && !b.empty(); k--) {
            size_t i = r.below((uint32_t) b.size());
            if (r.chance(1, 2))
                b.erase(i, 1);
            else
                b[i] = (char) r.below(256);
        }
    } else if (kind == 2)
        b = encodeFile(randText(r, false), randFormat(r)); // format given does not match the file
    else
        b = vf::randOver(r, "\r\n\xef\xbb\xbf\xfe\xff\xd8\xdc\xc3\xe2\xf0", 300);
    if (f.encoding == E::UTF16_be || f.encoding == E::UTF16_le) {
        if (b.size() & 1)
            b.pop_back(); // what a dangling byte turns into is not stated
    }
    Owned<InStream> src = makeSource(b, r);
    Str got;
    if (r.chance(1, 4)) {
        // the importer borrows its source
        Owned<InStream> imp = f.createImporter(borrow(src.get()));
        got = drain(imp, r);
    } else {
        Owned<InStream> imp = f.createImporter(std::move(src));
        if (r.chance(1, 5))
            got = vf::str(imp->readRemainingContents());
        else
            got = drain(imp, r);
    }
    Str want = decodeFile(b, f);
    VF_CHECK(got == want, "import", "%s: imported text differs from the file's: %s", fmtName(f).c_str(),
             firstDiff(got, want).c_str());
    vf::count("import." + Str(encName(f.encoding)));
    vf::maxOf("import.bytes", b.size());
    vf::distinct(vf::hashStr(b, (uint64_t) f.encoding * 8 + (uint64_t) f.bom));
}

static void writePieces(OutStream* outs, const Str& t, vf::Rng& r) {
    size_t i = 0;
    u32 piece = r.pick({1u, 2u, 3u, 7u, 64u, 5000u});
    while (i < t.size()) {
        size_t n = std::min<size_t>(1 + r.below(piece), t.size() - i);
        switch (r.below(3)) {
            case 0:
                outs->write(StringView{t.data() + i, (u32) n});
                break;
            case 1:
                n = 1;
                outs->writeByte(t[i]);
                break;
            default: {
                u32 room = outs->tryMakeBytesAvailable();
                n = std::min<size_t>(n, room ? (size_t) outs->numBytesAvailable() : 0);
                if (n == 0) {
                    vf::fail("no-room", "output stream gave no room");
                    return;
                }
                memcpy(outs->curByte, t.data() + i, n);
                outs->curByte += n;
            }
        }
        i += n;
        // Flushing between characters never alters the output.
        if (r.chance(1, 40) && (i == t.size() || ((unsigned char) t[i] & 0xC0) != 0x80))
            outs->flush(r.chance(1, 2));
    }
}

// Export: any text, any format, any splitting, flushes in between.
VF_WORKLOAD(exportAny, 25000, 100000) {
    TextFormat f = randFormat(r);
    Str t = randText(r, f.encoding == E::Bytes && r.chance(2, 3));
    Str given = t;
    if (r.chance(1, 3))
        given = crlf(t); // accepts both newline styles
    Str out;
    vf::SinkPipe sink{&out};
    bool viaFlush = r.chance(1, 3);
    Str early;
    {
        OutStream raw{OptionallyOwned<OutPipe>{borrow((OutPipe*) &sink)}, r.pick({7u, 8u, 12u})};
        Owned<OutStream> exp = f.createExporter(borrow(&raw));
        writePieces(exp, given, r);
        if (viaFlush) {
            exp->flush();
            early = out;
        }
    }
    Str want = encodeFile(t, f);
    VF_CHECK(out == want, "export", "%s: exported file differs: %s", fmtName(f).c_str(), firstDiff(out, want).c_str());
    if (viaFlush)
        VF_CHECK(early == want, "export-flush", "%s: after flush the file is incomplete: %s", fmtName(f).c_str(),
                 firstDiff(early, want).c_str());
    // and back
    if (f.encoding != E::Bytes || get8(t) == get8(decodeFile(want, f))) {
        Owned<InStream> imp = f.createImporter(makeSource(out, r));
        Str back = drain(imp, r);
        VF_CHECK(back == t, "roundtrip", "%s: text read back differs: %s", fmtName(f).c_str(),
                 firstDiff(back, t).c_str());
        vf::count("roundtrips");
    }
    vf::count("export." + fmtName(f));
    vf::distinct(vf::hashStr(out));
}

// The destination fails part-way: what arrived is a prefix of what should have, and nothing hangs.
VF_WORKLOAD(exportFail, 10000, 40000) {
    TextFormat f = randFormat(r);
    Str t = randText(r, false);
    Str want = encodeFile(t, f), out;
    vf::SinkPipe sink{&out};
    sink.failAt = want.size() ? r.below((uint32_t) want.size()) : 0;
    {
        OutStream raw{OptionallyOwned<OutPipe>{borrow((OutPipe*) &sink)}, r.pick({7u, 8u, 12u})};
        Owned<OutStream> exp = f.createExporter(borrow(&raw));
        size_t i = 0;
        while (i < t.size()) {
            size_t n = std::min<size_t>(1 + r.below(600), t.size() - i);
            exp->write(StringView{t.data() + i, (u32) n});
            i += n;
        }
        exp->flush();
        if (sink.failed)
            VF_CHECK(raw.atEOF(), "fail-unreported", "%s: destination failed, the stream does not say so",
                     fmtName(f).c_str());
    }
    VF_CHECK(want.compare(0, out.size(), out) == 0, "fail-prefix", "%s: what arrived before the failure is wrong: %s",
             fmtName(f).c_str(), firstDiff(out, want).c_str());
    vf::count("faults injected", sink.failed);
    vf::distinct(vf::hashStr(out, sink.failAt));
}

// Converting through memory buffers of any size equals converting the whole.
template <typename D, typename S>
static void convertPair(vf::Rng& r, const Str& src, const char* name) {
    String whole = TextConverter::convert<D, S>(vf::view(src));
    std::vector<uint32_t> pts;
    if (std::is_same<S, UTF8>::value)
        pts = get8(src);
    else if (std::is_same<S, Enc_Bytes>::value)
        for (unsigned char c : src)
            pts.push_back(c);
    else
        pts = get16(src, std::is_same<S, UTF16_BE>::value);
    Str want;
    for (uint32_t c : pts) {
        if (std::is_same<D, UTF8>::value)
            put8(want, c);
        else if (std::is_same<D, Enc_Bytes>::value)
            want += (char) (c < 256 ? c : 0x95);
        else
            put16(want, c, std::is_same<D, UTF16_BE>::value);
    }
    VF_CHECK(vf::str(whole) == want, "convert", "%s: %s", name, firstDiff(vf::str(whole), want).c_str());
    TextConverter tc = TextConverter::create<D, S>();
    Str got;
    size_t i = 0;
    uint32_t idle = 0;
    uint32_t srcMax = r.pick({1u, 2u, 3u, 4u, 9u, 100u}), dstMax = r.pick({1u, 2u, 3u, 4u, 5u, 9u, 100u});
    while (idle < 3) {
        vf::Exact in(src.substr(i, 1 + r.below(srcMax)));
        bool last = i + in.n == src.size();
        vf::Exact outBuf(Str(1 + r.below(dstMax), '?'));
        MutableStringView dst{outBuf.p, outBuf.n};
        StringView sv = in.view();
        bool did = tc.convert(&dst, &sv, last);
        size_t wrote = outBuf.n - dst.numBytes;
        VF_CHECK(sv.numBytes <= in.n && wrote <= outBuf.n && sv.bytes == in.p + (in.n - sv.numBytes) &&
                     dst.bytes == outBuf.p + wrote,
                 "convert-bounds", "%s: views moved outside their buffers", name);
        VF_CHECK(!wrote || did, "convert-return", "%s: wrote %zu bytes but reports no work", name, wrote);
        got.append(outBuf.p, wrote);
        i += in.n - sv.numBytes;
        if (wrote == 0 && i == src.size())
            idle++;
        else if (wrote == 0 && in.n == sv.numBytes)
            VF_CHECK(++idle < 3, "convert-stuck", "%s: no progress at byte %zu of %zu", name, i, src.size());
        else
            idle = 0;
    }
    VF_CHECK(got == want, "convert-chunks", "%s in pieces: %s", name, firstDiff(got, want).c_str());
    vf::count("converter pairs");
}
VF_WORKLOAD(converters, 20000, 150000) {
    Str s;
    switch (r.below(4)) {
        case 0:
            s = vf::randBytes(r, 200);
            break;
        case 1:
            s = vf::randUtf8(r, 80);
            break;
        case 2:
            for (uint32_t c : get8(vf::randUtf8(r, 80)))
                put16(s, c, r.chance(1, 2));
            break;
        default:
            s = vf::randOver(r, "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xd8\xdc" "A", 60);
    }
    Str even = s.substr(0, s.size() & ~(size_t) 1);
    convertPair<UTF8, Enc_Bytes>(r, s, "bytes->utf8");
    bool all16 = true; // UTF-8 can spell numbers beyond Unicode, which UTF-16 has no form for
    for (uint32_t c : get8(s))
        all16 = all16 && c < 0x110000;
    if (all16) {
        convertPair<UTF16_LE, UTF8>(r, s, "utf8->utf16le");
        convertPair<UTF16_BE, UTF8>(r, s, "utf8->utf16be");
    }
    convertPair<Enc_Bytes, UTF8>(r, s, "utf8->bytes");
    convertPair<UTF8, UTF16_LE>(r, even, "utf16le->utf8");
    convertPair<UTF8, UTF16_BE>(r, even, "utf16be->utf8");
    convertPair<UTF16_BE, UTF16_LE>(r, even, "utf16le->be");
    convertPair<UTF8, UTF8>(r, s, "utf8->utf8");
    vf::distinct(vf::hashStr(s));
}

// Newline filters alone.
VF_WORKLOAD(newlines, 10000, 80000) {
    Str s = r.chance(1, 2) ? vf::randOver(r, "ab\r\n", 800) : vf::randBytes(r, 2000);
    {
        InStream ins{OptionallyOwned<InPipe>{createInNewLineFilter(makeSource(s, r))}, r.pick({7u, 12u})};
        Str got = drain(&ins, r);
        VF_CHECK(got == noCR(s), "newline-in", "%s", firstDiff(got, noCR(s)).c_str());
    }
    bool cr = r.chance(1, 2);
    Str out;
    {
        vf::SinkPipe sink{&out};
        OutStream raw{OptionallyOwned<OutPipe>{borrow((OutPipe*) &sink)}, 7};
        Owned<OutPipe> filter = createOutNewLineFilter(borrow(&raw), cr);
        size_t i = 0;
        while (i < s.size()) {
            vf::Exact piece(s.substr(i, 1 + r.below(r.pick({2u, 300u}))));
            VF_CHECK(filter->write(piece.view()), "newline-write", "write reports failure");
            i += piece.n;
            if (r.chance(1, 10))
                filter->flushMem();
        }
    }
    Str want = cr ? crlf(noCR(s)) : noCR(s);
    VF_CHECK(out == want, "newline-out", "crlf=%d: %s", cr, firstDiff(out, want).c_str());
    vf::distinct(vf::hashStr(s));
}

// Detection: leaves the stream where it was, and recognises what it must.
VF_WORKLOAD(detect, 20000, 100000) {
    TextFormat f = randFormat(r);
    int kind = r.below(3);
    Str t, b;
    if (kind == 0) {
        b = vf::randBytes(r, 9000);
    } else {
        t = randText(r, false);
        if (kind == 2) {
            // ordinary prose
            t.clear();
            uint32_t lines = 2 + r.size(200);
            for (uint32_t l = 0; l < lines; l++) {
                for (uint32_t w = 1 + r.below(12); w > 0; w--) {
                    for (uint32_t k = 1 + r.below(9); k > 0; k--)
                        t += (char) ('a' + r.below(26));
                    t += w > 1 ? ' ' : '.';
                }
                t += '\n';
            }
        }
        b = encodeFile(t, f);
    }
    Owned<InStream> src = makeSource(b, r);
    TextFormat d = TextFormat::autodetect(src);
    VF_CHECK(src->getSeekPos() == 0, "detect-pos", "detection left the stream at %llu",
             (unsigned long long) src->getSeekPos());
    if (r.chance(1, 2)) {
        Str all = drain(src, r);
        VF_CHECK(all == b, "detect-content", "after detection the content differs: %s", firstDiff(all, b).c_str());
    } else if (kind != 0 && f.bom && f.encoding == E::UTF8) {
        Owned<InStream> imp = d.createImporter(std::move(src));
        Str back = drain(imp, r);
        VF_CHECK(back == noCR(t), "detect-import", "%s detected as %s: %s", fmtName(f).c_str(), fmtName(d).c_str(),
                 firstDiff(back, t).c_str());
    }
    VF_CHECK(d.encoding != E::Bytes || !d.bom, "detect-bytes-bom", "bytes with a byte order mark");
    if (kind != 0 && f.bom) {
        VF_CHECK(d.bom && d.encoding == f.encoding, "detect-bom", "%s detected as %s", fmtName(f).c_str(),
                 fmtName(d).c_str());
    }
    if (kind == 2 && !(f.encoding == E::Bytes)) {
        VF_CHECK(d == f, "detect-prose", "%s detected as %s", fmtName(f).c_str(), fmtName(d).c_str());
        vf::count("detected." + fmtName(f));
    }
    if (kind == 1 && f.encoding == E::UTF8 && !f.bom) {
        bool control = false;
        for (unsigned char c : t)
            control |= c < 32 && c != '\n' && c != '\t';
        if (!control && b.compare(0, 3, "\xef\xbb\xbf") != 0)
            VF_CHECK(d.encoding == E::UTF8 && !d.bom, "detect-utf8", "well-formed UTF-8 detected as %s",
                     fmtName(d).c_str());
    }
    vf::distinct(vf::hashStr(b));
}

// Through the file system.
VF_WORKLOAD(files, 800, 4000) {
    TextFormat f = randFormat(r);
    Str t = randText(r, f.encoding == E::Bytes);
    if (f.encoding == E::Bytes) {
        Str l1;
        for (uint32_t c : get8(t))
            put8(l1, c < 256 ? c : 'x');
        t = l1;
    }
    Str path = vf::scratch() + "/t" + std::to_string(getpid()) + ".txt";
    FileSystem* fs = FileSystem::native();
    FSResult rc = fs->makeDirsAndSaveTextIfDifferent(vf::view(path), vf::view(t), f);
    VF_CHECK(rc == FSResult::OK || rc == FSResult::Unchanged, "save", "result %d", (int) rc);
    Str raw = vf::str(fs->loadBinary(vf::view(path)));
    VF_CHECK(raw == encodeFile(t, f), "save-bytes", "%s: %s", fmtName(f).c_str(),
             firstDiff(raw, encodeFile(t, f)).c_str());
    Str back = vf::str(fs->loadText(vf::view(path), f));
    VF_CHECK(back == t, "load", "%s: %s", fmtName(f).c_str(), firstDiff(back, t).c_str());
    rc = fs->makeDirsAndSaveTextIfDifferent(vf::view(path), vf::view(t), f);
    VF_CHECK(rc == FSResult::Unchanged, "unchanged", "saving the same text again: %d", (int) rc);
    {
        Owned<InStream> ins = fs->openTextForRead(vf::view(path), f);
        Str got = drain(ins, r);
        VF_CHECK(got == t, "open", "%s: %s", fmtName(f).c_str(), firstDiff(got, t).c_str());
    }
    if (f.bom) {
        auto la = fs->loadTextAutodetect(vf::view(path));
        VF_CHECK(vf::str(la.first) == t && la.second.encoding == f.encoding && la.second.bom, "load-autodetect", "%s: %s",
                 fmtName(f).c_str(), firstDiff(vf::str(la.first), t).c_str());
        auto oa = fs->openTextForReadAutodetect(vf::view(path));
        Str got = drain(oa.first, r);
        VF_CHECK(got == t, "open-autodetect", "%s: %s", fmtName(f).c_str(), firstDiff(got, t).c_str());
    }
    unlink(path.c_str());
    vf::count("files");
    vf::distinct(vf::hashStr(raw));
}

VF_MAIN()
