// Glue between the framework and the Plywood runtime.
#pragma once
#include "vf.h"
#include <ply-runtime/Base.h>

namespace vf {

inline Str str(ply::StringView v) {
    return Str(v.bytes, v.numBytes);
}
inline ply::StringView view(const Str& s) {
    return ply::StringView{s.data(), (ply::u32) s.size()};
}

// An element type that knows how many instances are alive and detects double
// construction/destruction, use of dead instances and torn contents.
struct Tracked {
    static int64_t& live() {
        static int64_t n = 0;
        return n;
    }
    static int64_t& errors() {
        static int64_t n = 0;
        return n;
    }
    static const uint32_t Alive = 0xA11CE5ED, Dead = 0xDEADDEAD, Moved = 0x3037ED00;
    uint32_t magic;
    int32_t value;
    uint32_t check;
    int32_t* heap; // owned allocation: a leaked or doubly destroyed instance is visible to ASan too
    void init(int32_t v) {
        magic = Alive;
        value = v;
        check = (uint32_t) v * 2654435761u;
        heap = new int32_t(v);
        live()++;
    }
    bool ok() const {
        if (magic == Moved)
            return true;
        return magic == Alive && check == (uint32_t) value * 2654435761u && *heap == value;
    }
    void verify() const {
        if (!ok())
            errors()++;
    }
    Tracked() {
        init(0);
    }
    Tracked(int32_t v) {
        init(v);
    }
    Tracked(const Tracked& o) {
        o.verify();
        init(o.value);
    }
    Tracked(Tracked&& o) {
        o.verify();
        init(o.value);
        o.value = -1;
        o.check = (uint32_t) -1 * 2654435761u;
        *o.heap = -1;
    }
    Tracked& operator=(const Tracked& o) {
        verify();
        o.verify();
        value = o.value;
        check = o.check;
        *heap = value;
        return *this;
    }
    Tracked& operator=(Tracked&& o) {
        verify();
        o.verify();
        int32_t v = o.value;
        if (&o != this) {
            o.value = -1;
            o.check = (uint32_t) -1 * 2654435761u;
            *o.heap = -1;
        }
        value = v;
        check = (uint32_t) v * 2654435761u;
        *heap = v;
        return *this;
    }
    ~Tracked() {
        verify();
        if (magic != Alive)
            errors()++;
        magic = Dead;
        delete heap;
        live()--;
    }
    bool operator==(const Tracked& o) const {
        verify();
        o.verify();
        return value == o.value;
    }
    bool operator!=(const Tracked& o) const {
        return !(*this == o);
    }
    bool operator<(const Tracked& o) const {
        verify();
        o.verify();
        return value < o.value;
    }
};

// Bytes currently allocated from the instrumented heap (0 where not available).
inline size_t liveBytes() {
#if VF_ASAN
    return rawLive() - ownBytes();
#else
    return 0;
#endif
}

// Random byte strings of the kinds text code trips over.
inline Str randUtf8(Rng& r, uint32_t maxChars) {
    Str s;
    uint32_t n = r.size(maxChars);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t c;
        switch (r.below(8)) {
            case 0:
                c = 0x80 + r.below(0x780);
                break;
            case 1:
                c = 0x800 + r.below(0xF800);
                if (c >= 0xD800 && c < 0xE000)
                    c = 0x20AC;
                break;
            case 2:
                c = 0x10000 + r.below(0x100000);
                break;
            case 3:
                c = "\n\r\t \"\\'"[r.below(7)];
                break;
            default:
                c = 32 + r.below(95);
        }
        if (c < 0x80)
            s += (char) c;
        else if (c < 0x800) {
            s += (char) (0xC0 | (c >> 6));
            s += (char) (0x80 | (c & 63));
        } else if (c < 0x10000) {
            s += (char) (0xE0 | (c >> 12));
            s += (char) (0x80 | ((c >> 6) & 63));
            s += (char) (0x80 | (c & 63));
        } else {
            s += (char) (0xF0 | (c >> 18));
            s += (char) (0x80 | ((c >> 12) & 63));
            s += (char) (0x80 | ((c >> 6) & 63));
            s += (char) (0x80 | (c & 63));
        }
    }
    return s;
}
inline Str randBytes(Rng& r, uint32_t maxBytes) {
    Str s;
    uint32_t n = r.size(maxBytes);
    int mode = r.below(3);
    for (uint32_t i = 0; i < n; i++) {
        if (mode == 0)
            s += (char) r.below(256);
        else if (mode == 1)
            s += (char) ("ab \n\r\t,.\"\\/<>&%\x80\xff"[r.below(17)]);
        else
            s += (char) (32 + r.below(95));
    }
    return s;
}
inline Str randOver(Rng& r, const char* alphabet, uint32_t maxLen) {
    Str s;
    size_t k = strlen(alphabet);
    uint32_t n = r.size(maxLen);
    for (uint32_t i = 0; i < n; i++)
        s += alphabet[r.below((uint32_t) k)];
    return s;
}

} // namespace vf

namespace vf {
// Bytes in a heap block of exactly their size, so that reading one byte past them is seen.
struct Exact {
    char* p;
    uint32_t n;
    explicit Exact(const Str& s) : p((char*) malloc(s.size() ? s.size() : 1)), n((uint32_t) s.size()) {
        memcpy(p, s.data(), s.size());
        if (!n) {
            free(p);
            p = (char*) malloc(0);
        }
    }
    Exact(const Exact&) = delete;
    ~Exact() {
        free(p);
    }
    ply::StringView view() const {
        return {p, n};
    }
    operator ply::StringView() const {
        return {p, n};
    }
};
} // namespace vf
