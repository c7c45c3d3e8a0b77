// Audio: mixing and resampling over buffers of exactly the samples they hold.
#include "plyvf.h"
#include <audio-primitives/Core.h>
#include <audio-primitives/Render.h>
#include <audio-primitives/Saturate.h>
#include <audio-primitives/OfflineClip.h>
#include <ply-reflect/TypeDescriptor.h>
#include <ply-reflect/AnyOwnedObject.h>
#include <ply-reflect/PersistRead.h>
#include <ply-reflect/PersistWrite.h>
#include <memory>
using namespace ply;
using audio::Buffer;
using audio::Format;
using vf::Rng;
using vf::Str;

namespace {
s16 randSample(Rng& r) {
    switch (r.below(6)) {
        case 0:
            return 32767;
        case 1:
            return -32768;
        case 2:
            return (s16) (r.below(5) - 2);
        default:
            return (s16) r.u32();
    }
}
s16 sat(s64 v) {
    return (s16) (v > 32767 ? 32767 : v < -32768 ? -32768 : v);
}
// Samples in a block of exactly their size; the ends of the block are poisoned by the sanitizer.
struct Block {
    std::unique_ptr<char[]> mem;
    std::vector<s16> want;
    u32 channels;
    Block(Rng& r, u32 frames, u32 channels_) : channels{channels_} {
        mem.reset(new char[frames * channels * 2]);
        want.resize(frames * channels);
        for (s16& s : want)
            s = randSample(r);
        put();
    }
    void put() {
        if (!want.empty())
            memcpy(mem.get(), want.data(), want.size() * 2);
    }
    Buffer buffer(float rate = 44100.f) {
        return Buffer{mem.get(), (u32) want.size() / channels, rate, Format::encode((u8) channels, Format::SampleType::S16)};
    }
    void check(const char* what) {
        for (size_t i = 0; i < want.size(); i++) {
            s16 got;
            memcpy(&got, mem.get() + i * 2, 2);
            VF_CHECK(got == want[i], what, "sample %zu of %zu is %d, not %d", i, want.size(), got, want[i]);
        }
    }
};
u32 frameCount(Rng& r) {
    return r.chance(1, 8) ? r.below(600) : r.below(20);
}
} // namespace

VF_WORKLOAD(saturation, 2000, 20000) {
    for (u32 i = 0; i < 200; i++) {
        s16 a = randSample(r), b = randSample(r), got = audio::saturatingAdd(a, b);
        VF_CHECK(got == sat(s32(a) + b), "saturating-add", "%d + %d = %d", a, b, got);
        vf::distinct((u64(u16(a)) << 16) | u16(b));
    }
    vf::evals(200);
}

VF_WORKLOAD(mixing, 6000, 120000) {
    u32 op = r.below(3), channels = op == 2 ? 2 : 1 + r.below(2), frames = frameCount(r);
    Block d{r, frames, channels}, s{r, frames, channels};
    if (op == 0) {
        audio::mix(d.buffer(), s.buffer());
        for (size_t i = 0; i < d.want.size(); i++)
            d.want[i] = sat(s32(d.want[i]) + s.want[i]);
        d.check("mix");
    } else if (op == 1) {
        s32 level = r.chance(1, 4) ? (s32[]) {0, 65536, -65535, 1, -1, 32768}[r.below(6)] : (s32) r.below(131071) - 65535;
        audio::mixLeveled(d.buffer(), s.buffer(), level);
        for (size_t i = 0; i < d.want.size(); i++)
            d.want[i] = sat(d.want[i] + ((s64(s.want[i]) * level) >> 16));
        d.check("mix-leveled");
    } else {
        // A ramp between two levels in [0, 1], 30 bits of fraction, one step per frame
        u32 from = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 1u << 30) : r.below((1u << 30) + 1), to = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 1u << 30) : r.below((1u << 30) + 1);
        s32 step = frames ? ((s32) to - (s32) from) / (s32) frames : 0;
        u32 cut = frames ? r.below(frames + 1) : 0;
        Buffer db = d.buffer(), sb = s.buffer();
        if (r.chance(1, 2)) {
            // The ramp may be played in two goes
            audio::mixDynLevel(db.getSubregion(0, cut), sb.getSubregion(0, cut), from, step);
            audio::mixDynLevel(db.getSubregion(cut), sb.getSubregion(cut), from + cut * step, step);
        } else
            audio::mixDynLevel(db, sb, from, step);
        s64 level = from;
        for (u32 i = 0; i < frames; i++) {
            for (u32 c = 0; c < 2; c++)
                d.want[i * 2 + c] = sat(d.want[i * 2 + c] + ((s64(s.want[i * 2 + c]) * (level >> 14)) >> 16));
            level += step;
        }
        d.check("mix-ramp");
    }
    s.check("source-changed");
    vf::distinct(vf::hashStr(Str(d.mem.get(), d.want.size() * 2)));
    vf::evals(1);
}

// Playback at any rate: only samples that exist are read, and cutting the output into blocks changes nothing.
VF_WORKLOAD(pitched, 6000, 120000) {
    u32 frames = frameCount(r);
    u32 step = 0;
    switch (r.below(6)) {
        case 0:
            step = 65536 * r.below(4);
            break;
        case 1:
            step = r.below(65536);
            break;
        case 2:
            step = 65535 + r.below(3);
            break;
        case 3:
            step = r.below(40) * 65536 + r.below(65536);
            break;
        case 4:
            step = r.below(3);
            break;
        default:
            step = 32768 + r.below(98304);
            break;
    }
    u32 sf = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 65535) : r.below(65536);
    u64 last = frames ? (sf + u64(step) * (frames - 1)) >> 16 : 0;
    // Exactly the frames that playing it needs: one after the last one entered
    u32 srcFrames = (u32) last + 2;
    Block s{r, srcFrames, 2}, d{r, frames, 2};
    s32 volume = r.chance(1, 3) ? (r.chance(1, 2) ? 65536 : 0) : (s32) r.below(131072) - 65535;
    if (r.chance(1, 3))
        for (s16& v : d.want)
            v = 0;
    d.put();
    std::vector<u32> cuts;
    for (u32 at = 0; at < frames;) {
        u32 n = r.chance(1, 2) ? frames - at : 1 + r.below(frames - at);
        cuts.push_back(n);
        at += n;
    }
    if (frames == 0)
        cuts.push_back(0);
    u32 at = 0;
    for (u32 n : cuts) {
        u64 pos = sf + u64(step) * at;
        u64 needed = n ? ((pos + u64(step) * (n - 1)) >> 16) + 2 : 2;
        audio::MixPitchedDirectParams params;
        params.dst = d.mem.get() + at * 4;
        params.dstEnd = params.dst + n * 4;
        params.src = s.mem.get() + (pos >> 16) * 4;
        params.srcEnd = s.mem.get() + (r.chance(1, 2) ? needed : srcFrames) * 4;
        params.sf16 = pos & 65535;
        params.srcStep = step;
        params.volume16 = volume;
        audio::mixPitchedDirect(params);
        at += n;
    }
    for (u32 i = 0; i < frames; i++) {
        u64 pos = sf + u64(step) * i;
        size_t p = pos >> 16;
        s64 f = pos & 65535;
        for (u32 c = 0; c < 2; c++) {
            s64 v = (s64(s.want[p * 2 + c]) * (65536 - f) + s64(s.want[p * 2 + 2 + c]) * f) >> 16;
            d.want[i * 2 + c] = sat(d.want[i * 2 + c] + ((v * volume) >> 16));
        }
    }
    d.check("pitched");
    s.check("source-changed");
    vf::maxOf("blocks per playback", (double) cuts.size());
    vf::distinct((u64(step) << 32) ^ (u64(sf) << 12) ^ frames);
    vf::evals(1);
}

// Views into a buffer, and formats.
VF_WORKLOAD(views, 4000, 80000) {
    u32 channels = 1 + r.below(6), frames = frameCount(r);
    Format::SampleType type = r.chance(1, 2) ? Format::SampleType::S16 : Format::SampleType::Float;
    Format f = Format::encode((u8) channels, type);
    u32 unit = type == Format::SampleType::S16 ? 2 : 4;
    VF_CHECK(f.numChannels == channels && f.sampleType == type && f.stride == channels * unit, "encode", "%u channels: stride %u", channels, f.stride);
    VF_CHECK((f == Format::MonoS16) == (channels == 1 && unit == 2) && (f == Format::StereoS16) == (channels == 2 && unit == 2) && !(f == Format::Null), "constants",
             "the named formats");
    // Formats compare equal wherever they lie
    struct alignas(4) Odd {
        u16 pad;
        Format a, b;
    };
    Odd odd;
    odd.a = f;
    odd.b = Format::encode((u8) (1 + r.below(6)), r.chance(1, 2) ? Format::SampleType::S16 : Format::SampleType::Float);
    bool same = odd.a.numChannels == odd.b.numChannels && odd.a.sampleType == odd.b.sampleType;
    VF_CHECK((odd.a == odd.b) == same && odd.a == f, "equal", "formats of %u and %u channels", odd.a.numChannels, odd.b.numChannels);
    Format loaded = f;
    loaded.stride = 77;
    loaded.onPostSerialize();
    VF_CHECK(loaded == f, "loaded", "stride %u after loading", loaded.stride);

    size_t size = size_t(frames) * f.stride;
    std::unique_ptr<char[]> mem{new char[size]};
    Str want(size, 0);
    for (size_t i = 0; i < size; i++)
        want[i] = mem[i] = (char) r.u32();
    float rate = 100.f * r.below(1000);
    Buffer b{mem.get(), frames, rate, f};
    u32 from = 0, n = frames;
    for (u32 i = r.below(4); i > 0; i--) {
        u32 o = r.below(n + 1), len = r.below(n - o + 1);
        if (r.chance(1, 3)) {
            b = b.getSubregion(o);
            len = n - o;
        } else
            b = b.getSubregion(o, len);
        from += o;
        n = len;
    }
    VF_CHECK(b.numSamples == n && b.samples == mem.get() + from * f.stride && b.sampleRate == rate && b.format == f, "subregion", "%u samples from %u", n, from);
    VF_CHECK(b.getSizeBytes() == n * f.stride && b.getEndPtr() == b.samples + n * f.stride, "size", "%u bytes", b.getSizeBytes());
    if (n) {
        u32 at = r.below(n);
        VF_CHECK(b.getSampleAt(at) == mem.get() + (from + at) * f.stride, "sample-at", "sample %u", at);
    }
    b.zero();
    memset(&want[0] + from * f.stride, 0, n * f.stride);
    VF_CHECK(memcmp(mem.get(), want.data(), size) == 0, "zero", "zeroing %u samples from %u of %u", n, from, frames);
    vf::distinct((u64(from) << 40) ^ (u64(n) << 16) ^ (channels * 2 + unit));
    vf::evals(1);
}

// Clips written and read back keep their samples and own them.
VF_WORKLOAD(clips, 1500, 30000) {
    s64 live = vf::liveBytes();
    {
        u32 frames = frameCount(r);
        Format f = Format::encode((u8) (1 + r.below(3)), r.chance(1, 2) ? Format::SampleType::S16 : Format::SampleType::Float);
        audio::OfflineClip clip;
        float rate = 1.f + r.below(96000);
        clip.node = audio::OfflineClipNode::create(frames, rate, f);
        Buffer& b = clip.node->buffer;
        VF_CHECK(b.numSamples == frames && b.getSizeBytes() == frames * f.stride && b.format == f, "create", "%u frames", frames);
        for (u32 i = 0; i < b.getSizeBytes(); i++)
            b.samples[i] = (char) r.u32();
        Str want{b.samples, b.getSizeBytes()};
        MemOutStream schema, data;
        {
            WriteFormatContext formats{&schema};
            WriteObjectContext ctx{&data, &formats};
            writeObject(AnyObject::bind(&clip), &ctx);
            formats.endSchema();
        }
        clip.node.clear();
        String schemaBytes = schema.moveToString(), dataBytes = data.moveToString();
        ViewInStream sin{schemaBytes}, din{dataBytes};
        Schema sch;
        readSchema(sch, &sin);
        struct Resolver : PersistentTypeResolver {
            TypeDescriptor* getType(FormatDescriptor*) override {
                return getTypeDescriptor<audio::OfflineClip>();
            }
        } res;
        ReadObjectContext ctx{&sch, &din, &res};
        AnyOwnedObject any = readObject(&ctx);
        VF_CHECK(any.data, "clip-missing", "no object");
        audio::OfflineClip* got = any.cast<audio::OfflineClip>();
        VF_CHECK(got->node, "clip-empty", "no node");
        Buffer& g = got->node->buffer;
        VF_CHECK(g.numSamples == frames && g.sampleRate == rate && g.format == f, "clip-format", "%u samples of %u bytes", g.numSamples, g.format.stride);
        VF_CHECK(g.samples == got->node->samples.bytes && Str(g.samples, g.getSizeBytes()) == want, "clip-samples", "the samples differ");
        vf::distinct(vf::hashStr(want));
        vf::evals(1);
    }
    VF_CHECK(idx < 8 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

VF_MAIN()
