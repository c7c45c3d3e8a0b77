// Pipes that split, delay-to-EOF, fail and record.
#pragma once
#include "plyvf.h"
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>

namespace vf {

// Delivers `data` in random pieces. Scribbles over the part of the caller's buffer it does not
// deliver, which a correct reader cannot notice.
struct SrcPipe : ply::InPipe {
    static Funcs Funcs_;
    Str data;
    size_t pos = 0;
    Rng rng;
    uint32_t maxPiece;       // 0: as much as fits
    bool scribble = true;
    uint32_t calls = 0, callsAtEnd = 0;
    size_t* askedOut = nullptr;
    bool* destroyed = nullptr;

    SrcPipe(const Str& d, uint64_t seed, uint32_t maxPiece)
        : InPipe{&Funcs_}, data{d}, rng{seed}, maxPiece{maxPiece} {
    }
    static void onDestroy(ply::InPipe* p) {
        SrcPipe* self = (SrcPipe*) p;
        if (self->destroyed)
            *self->destroyed = true;
        self->data.~Str();
        new (&self->data) Str;
    }
    static ply::u32 onRead(ply::InPipe* p, ply::MutableStringView buf) {
        SrcPipe* self = (SrcPipe*) p;
        self->calls++;
        VF_EXPECT(buf.numBytes > 0, "empty-read", "readSome was asked for 0 bytes");
        size_t left = self->data.size() - self->pos;
        size_t n = buf.numBytes < left ? buf.numBytes : left;
        if (self->maxPiece && n > 0) {
            size_t k = 1 + self->rng.below(self->maxPiece);
            if (k < n)
                n = k;
        }
        if (self->scribble)
            memset(buf.bytes, 0xEE, buf.numBytes);
        memcpy(buf.bytes, self->data.data() + self->pos, n);
        self->pos += n;
        if (n == 0)
            self->callsAtEnd++;
        return (ply::u32) n;
    }
};
inline SrcPipe::Funcs SrcPipe::Funcs_ = {SrcPipe::onDestroy, SrcPipe::onRead,
                                         ply::InPipe::getFileSize_Unsupported};

// Records what it is given; fails every write once `failAt` bytes have been accepted.
struct SinkPipe : ply::OutPipe {
    static Funcs Funcs_;
    Str* out;
    size_t failAt = ~(size_t) 0;
    bool failed = false;
    uint32_t writes = 0, flushes = 0, deviceFlushes = 0, afterFailure = 0;
    bool flushResult = true;
    bool* destroyed = nullptr;
    SinkPipe(Str* out) : OutPipe{&Funcs_}, out{out} {
    }
    static void onDestroy(ply::OutPipe* p) {
        SinkPipe* self = (SinkPipe*) p;
        if (self->destroyed)
            *self->destroyed = true;
    }
    static bool onWrite(ply::OutPipe* p, ply::StringView buf) {
        SinkPipe* self = (SinkPipe*) p;
        self->writes++;
        if (self->failed)
            self->afterFailure++;
        size_t room = self->failAt - (self->out->size() < self->failAt ? self->out->size() : self->failAt);
        if (buf.numBytes > room) {
            self->out->append(buf.bytes, room);
            self->failed = true;
            return false;
        }
        self->out->append(buf.bytes, buf.numBytes);
        return true;
    }
    static bool onFlush(ply::OutPipe* p, bool toDevice) {
        SinkPipe* self = (SinkPipe*) p;
        self->flushes++;
        self->deviceFlushes += toDevice;
        return self->flushResult;
    }
};
inline SinkPipe::Funcs SinkPipe::Funcs_ = {SinkPipe::onDestroy, SinkPipe::onWrite, SinkPipe::onFlush,
                                           ply::OutPipe::seek_Empty};

} // namespace vf
