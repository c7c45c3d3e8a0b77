// Sequence (stack/queue with stable addresses) and the BlockList under it, against a vector model.
#include "plyvf.h"
#include <ply-runtime/container/Sequence.h>
#include <ply-runtime/container/Owned.h>
using namespace ply;
using vf::Tracked;

template <typename T>
struct Ops;
template <>
struct Ops<Tracked> {
    static Tracked make(int32_t v) {
        return Tracked{v};
    }
    static bool eq(const Tracked& t, int32_t v) {
        return t.magic == Tracked::Alive && t.ok() && t.value == v;
    }
};
template <>
struct Ops<u32> {
    static u32 make(int32_t v) {
        return (u32) v;
    }
    static bool eq(u32 t, int32_t v) {
        return t == (u32) v;
    }
};
template <>
struct Ops<String> {
    static String make(int32_t v) {
        return String{vf::view(vf::fmt("item-%d-with-some-text", v))};
    }
    static bool eq(const String& t, int32_t v) {
        return vf::str(t.view()) == vf::fmt("item-%d-with-some-text", v);
    }
};
struct Big {
    Tracked t;
    char pad[700];
    Big(int32_t v) : t{v} {
        memset(pad, v & 127, sizeof pad);
    }
    Big(const Big& o) : t{o.t} {
        memcpy(pad, o.pad, sizeof pad);
    }
    Big(Big&& o) : t{std::move(o.t)} {
        memcpy(pad, o.pad, sizeof pad);
    }
};
template <>
struct Ops<Big> {
    static Big make(int32_t v) {
        return Big{v};
    }
    static bool eq(const Big& b, int32_t v) {
        return Ops<Tracked>::eq(b.t, v) && b.pad[0] == (v & 127) && b.pad[699] == (v & 127);
    }
};
struct Huge {
    Tracked t;
    char pad[5000];
    Huge(int32_t v) : t{v} {
        memset(pad, v & 127, sizeof pad);
    }
    Huge(const Huge& o) : t{o.t} {
        memcpy(pad, o.pad, sizeof pad);
    }
    Huge(Huge&& o) : t{std::move(o.t)} {
        memcpy(pad, o.pad, sizeof pad);
    }
};
template <>
struct Ops<Huge> {
    static Huge make(int32_t v) {
        return Huge{v};
    }
    static bool eq(const Huge& b, int32_t v) {
        return Ops<Tracked>::eq(b.t, v) && b.pad[0] == (v & 127) && b.pad[4999] == (v & 127);
    }
};

static int32_t nextVal = 1;

template <typename T>
struct Driver {
    Sequence<T>* seq = new Sequence<T>;
    std::vector<int32_t> mod;
    std::vector<const T*> addr;
    vf::Str log;
    int64_t live0 = Tracked::live();

    ~Driver() {
        delete seq;
    }

    void push(T& ref, int32_t v) {
        mod.push_back(v);
        addr.push_back(&ref);
    }

    bool check(vf::Rng& r, bool full) {
        VF_CHECKR(seq->isEmpty() == mod.empty(), false, "seq-size", "isEmpty()=%d with %zu items after %s",
                  seq->isEmpty(), mod.size(), log.c_str());
        if (!mod.empty()) {
            VF_CHECKR(&seq->tail() == addr.back() && Ops<T>::eq(seq->tail(), mod.back()), false, "seq-tail",
                      "tail() is not the last item after %s", log.c_str());
            VF_CHECKR(&seq->head() == addr[0] && Ops<T>::eq(seq->head(), mod[0]), false, "seq-head",
                      "head() is not the first item after %s", log.c_str());
        }
        VF_CHECKR(Tracked::errors() == 0, false, "seq-lifetime", "an item was used while dead after %s", log.c_str());
        if (!std::is_same<T, u32>::value && !std::is_same<T, String>::value)
            VF_CHECKR(Tracked::live() - live0 == (int64_t) mod.size(), false, "seq-lifetime",
                      "%lld live items, expected %zu, after %s", (long long) (Tracked::live() - live0), mod.size(),
                      log.c_str());
        if (!full)
            return true;
        VF_CHECKR(seq->numItems() == mod.size(), false, "seq-size", "numItems()=%u, expected %zu after %s",
                  seq->numItems(), mod.size(), log.c_str());
        size_t n = 0;
        for (T& t : *seq) {
            VF_CHECKR(n < mod.size() && &t == addr[n] && Ops<T>::eq(t, mod[n]), false, "seq-iter",
                      "item %zu of %zu wrong or moved while iterating after %s", n, mod.size(), log.c_str());
            n++;
        }
        VF_CHECKR(n == mod.size(), false, "seq-iter", "iteration saw %zu of %zu items after %s", n, mod.size(),
                  log.c_str());
        // Backwards
        auto it = seq->end();
        while (n > 0) {
            --it;
            n--;
            VF_CHECKR(&*it == addr[n] && Ops<T>::eq(*it, mod[n]), false, "seq-iter-back",
                      "item %zu of %zu wrong iterating backwards after %s", n, mod.size(), log.c_str());
        }
        VF_CHECKR(!(it != seq->begin()), false, "seq-iter-back", "backward iteration does not end at begin() after %s",
                  log.c_str());
        // Bulk reads
        auto rd = seq->begin();
        size_t pos = 0;
        while (pos < mod.size()) {
            T& t = rd.read();
            VF_CHECKR(&t == addr[pos], false, "seq-read", "read() item %zu wrong after %s", pos, log.c_str());
            pos++;
        }
        VF_CHECKR(!(rd != seq->end()), false, "seq-read", "reading all items does not reach end() after %s",
                  log.c_str());
        return true;
    }

    void run(vf::Rng& r, u32 steps) {
        u32 items = 0;
        for (u32 s = 0; s < steps && !vf::failed(); s++) {
            int32_t v = nextVal++;
            switch (r.below(12)) {
                case 0:
                case 1: {
                    T item = Ops<T>::make(v);
                    log += "append(const&) ";
                    push(seq->append(item), v);
                    break;
                }
                case 2: {
                    log += "append(&&) ";
                    push(seq->append(Ops<T>::make(v)), v);
                    break;
                }
                case 3: {
                    u32 n = r.size(sizeof(T) > 600 ? 12 : 400);
                    log += vf::fmt("append x%u ", n);
                    for (u32 i = 0; i < n; i++) {
                        int32_t w = nextVal++;
                        push(seq->append(Ops<T>::make(w)), w);
                    }
                    break;
                }
                case 4: {
                    ArrayView<T> view = seq->beginWriteViewNoConstruct();
                    VF_CHECK(view.numItems > 0, "seq-write", "beginWriteViewNoConstruct() returned no room");
                    u32 n = 1 + r.below(view.numItems);
                    if (r.chance(1, 3))
                        n = view.numItems;
                    log += vf::fmt("write %u/%u ", n, view.numItems);
                    for (u32 i = 0; i < n; i++) {
                        int32_t w = nextVal++;
                        new (&view[i]) T{Ops<T>::make(w)};
                        push(view[i], w);
                    }
                    seq->endWrite(n);
                    break;
                }
                case 5: {
                    T* p = seq->beginWriteNoConstruct();
                    new (p) T{Ops<T>::make(v)};
                    seq->endWrite();
                    log += "write1 ";
                    push(*p, v);
                    break;
                }
                case 6:
                case 7: {
                    if (mod.empty())
                        break;
                    u32 n = r.chance(1, 2) ? 1 : 1 + r.below((u32) mod.size());
                    if (r.chance(1, 12))
                        n = (u32) mod.size();
                    log += vf::fmt("popTail(%u of %zu) ", n, mod.size());
                    seq->popTail(n);
                    mod.resize(mod.size() - n);
                    addr.resize(mod.size());
                    break;
                }
                case 8: {
                    // Cut the tail off at an earlier position
                    u32 n = r.below((u32) mod.size() + 1);
                    auto it = seq->begin();
                    for (u32 i = 0; i < n; i++)
                        ++it;
                    log += vf::fmt("truncate(to %u of %zu) ", n, mod.size());
                    seq->truncate(it);
                    mod.resize(n);
                    addr.resize(n);
                    break;
                }
                case 9: {
                    if (r.chance(1, 3)) {
                        log += "clear ";
                        seq->clear();
                        mod.clear();
                        addr.clear();
                    } else if (r.chance(1, 2)) {
                        log += "move ";
                        Sequence<T>* other = new Sequence<T>{std::move(*seq)};
                        delete seq;
                        seq = other;
                    } else {
                        log += "move= ";
                        Sequence<T>* other = new Sequence<T>;
                        for (u32 i = r.size(200); i > 0; i--)
                            other->append(Ops<T>::make(-5));
                        *other = std::move(*seq);
                        delete seq;
                        seq = other;
                    }
                    break;
                }
                case 10: {
                    // A position saved at the end sees the items appended later
                    auto save = seq->end();
                    u32 n = r.size(sizeof(T) > 600 ? 8 : 300);
                    size_t pos = mod.size();
                    for (u32 i = 0; i < n; i++) {
                        int32_t w = nextVal++;
                        push(seq->append(Ops<T>::make(w)), w);
                    }
                    log += vf::fmt("saved-end+%u ", n);
                    auto norm = save.normalized();
                    for (u32 i = 0; i < n; i++) {
                        VF_CHECK(norm != seq->end() && &*norm == addr[pos + i], "seq-saved-pos",
                                 "item %u after a saved position is wrong after %s", i, log.c_str());
                        ++norm;
                    }
                    VF_CHECK(!(norm != seq->end()), "seq-saved-pos", "saved position does not reach the end after %s",
                             log.c_str());
                    break;
                }
                case 11: {
                    if (r.chance(3, 4))
                        break;
                    log += "moveToArray ";
                    if (!check(r, true))
                        return;
                    Array<T> arr = seq->moveToArray();
                    VF_CHECK(arr.numItems() == mod.size(), "seq-toarray", "moveToArray() gave %u of %zu items after %s",
                             arr.numItems(), mod.size(), log.c_str());
                    for (u32 i = 0; i < arr.numItems(); i++)
                        VF_CHECK(Ops<T>::eq(arr[i], mod[i]), "seq-toarray", "moveToArray() item %u wrong after %s", i,
                                 log.c_str());
                    vf::count("moveToArray");
                    arr.clear();
                    mod.clear();
                    addr.clear();
                    delete seq;
                    seq = new Sequence<T>;
                    break;
                }
            }
            if (log.size() > 3000)
                log = "..." + log.substr(log.size() - 2000);
            vf::ctx(log);
            if (vf::failed() || !check(r, s % 8 == 7 || s + 1 == steps || mod.size() < 20))
                return;
            items = std::max<u32>(items, (u32) mod.size());
            if (mod.size() * sizeof(T) > 200000) {
                seq->clear();
                mod.clear();
                addr.clear();
                log = "(cleared) ";
            }
        }
        vf::maxOf("sequence items", items);
        vf::count("sequence operations", steps);
        vf::evals(steps);
        vf::distinct(vf::hashStr(log.substr(0, 400), items));
        if (vf::wantSample())
            vf::sample(log.substr(0, 300));
    }
};

template <typename T>
static void seqCase(vf::Rng& r) {
    size_t b0 = vf::liveBytes();
    int64_t l0 = Tracked::live();
    {
        Driver<T> d;
        d.run(r, 10 + r.below(vf::thorough() ? 200 : 60));
        if (vf::failed())
            vf::abandon(); // the container's state is unreliable from here on
    }
    VF_CHECK(Tracked::live() == l0, "seq-lifetime", "%lld items not destroyed with their sequence",
             (long long) (Tracked::live() - l0));
}

VF_WORKLOAD(sequence, 6000, 60000) {
    switch (idx % 5) {
        case 0:
            seqCase<Tracked>(r);
            break;
        case 1:
            seqCase<u32>(r);
            break;
        case 2:
            seqCase<String>(r);
            break;
        case 3:
            seqCase<Big>(r);
            break;
        default:
            seqCase<Huge>(r);
            break;
    }
}

// Whole-sequence leak check with heap accounting
VF_WORKLOAD(sequence_leak, 1500, 15000) {
    size_t b0 = vf::liveBytes();
    {
        Sequence<String> s;
        u32 n = r.size(500);
        for (u32 i = 0; i < n; i++)
            s.append(String::format("some string number {} that owns memory", i));
        u32 k = r.below(n + 1);
        if (r.chance(1, 2)) {
            if (k)
                s.popTail(k);
        } else {
            auto it = s.begin();
            for (u32 i = 0; i < n - k; i++)
                ++it;
            s.truncate(it);
        }
        VF_CHECK(s.numItems() == n - k, "seq-size", "%u items after dropping %u of %u", s.numItems(), k, n);
        switch (r.below(4)) {
            case 0: {
                Array<String> a = s.moveToArray();
                VF_CHECK(a.numItems() == n - k, "seq-toarray", "moveToArray() count");
                break;
            }
            case 1: {
                Sequence<String> t = std::move(s);
                VF_CHECK(t.numItems() == n - k, "seq-size", "count after move");
                break;
            }
            case 2:
                s.clear();
                break;
        }
        vf::distinct(vf::mix(n * 1000 + k));
    }
    size_t b1 = vf::liveBytes();
    VF_CHECK(b0 == b1, "seq-leak", "%zd bytes outlive the sequence", (ssize_t) (b1 - b0));
}

// Raw block list: bytes appended and popped, read back through views and toString over any range.
VF_WORKLOAD(blocklist, 4000, 40000) {
    size_t b0 = vf::liveBytes();
    {
        BlockList bl;
        vf::Str mod;
        struct Pos {
            BlockList::WeakRef ref;
            size_t ofs;
        };
        std::vector<Pos> saved;
        u32 steps = 2 + r.below(30);
        vf::Str log;
        for (u32 s = 0; s < steps; s++) {
            if (r.chance(3, 4) || mod.empty()) {
                u32 n = 1 + r.size(5000);
                char* p = bl.appendBytes(n);
                for (u32 i = 0; i < n; i++) {
                    p[i] = (char) r.below(256);
                    mod += p[i];
                }
                log += vf::fmt("append(%u) ", n);
                if (r.chance(1, 2)) {
                    u32 k = r.below(n);
                    saved.push_back({{bl.tail, p + k}, mod.size() - n + k});
                }
            } else {
                u32 avail = bl.tail->viewUsedBytes().numBytes;
                u32 n = r.below(avail + 1);
                if (r.chance(1, 3))
                    n = avail;
                bl.popLastBytes(n);
                mod.resize(mod.size() - n);
                while (!saved.empty() && saved.back().ofs >= mod.size())
                    saved.pop_back();
                log += vf::fmt("pop(%u) ", n);
            }
            vf::ctx(log);
            vf::Str got;
            u32 blocks = 0;
            for (StringView v : BlockList::iterateOverViews({bl.head, bl.head->start()})) {
                got += vf::str(v);
                blocks++;
            }
            VF_CHECK(got == mod, "blocklist-views", "views give %zu bytes, %zu were written: %s", got.size(),
                     mod.size(), log.c_str());
            VF_CHECK(bl.end().block == bl.tail && bl.end().byte == bl.tail->unused() &&
                         bl.tail->fileOffset + bl.tail->numBytesUsed == mod.size(),
                     "blocklist-offset", "end offset: %s", log.c_str());
            vf::maxOf("blocks in a list", blocks);
        }
        for (int k = 0; k < 6; k++) {
            BlockList::WeakRef from{bl.head, bl.head->start()};
            size_t a = 0, b = mod.size();
            BlockList::WeakRef to;
            if (!saved.empty() && r.chance(2, 3)) {
                auto& p = saved[r.below((u32) saved.size())];
                from = p.ref;
                a = p.ofs;
            }
            int mode = r.below(3);
            if (mode == 1) {
                to = bl.end();
            } else if (mode == 2 && !saved.empty()) {
                auto& p = saved[r.below((u32) saved.size())];
                if (p.ofs < a)
                    continue;
                to = p.ref;
                b = p.ofs;
            }
            vf::ctx(log + vf::fmt(" toString [%zu, %zu) mode %d of %zu", a, b, mode, mod.size()));
            String str = BlockList::toString(BlockList::Ref{from}, to);
            VF_CHECK(vf::str(str) == mod.substr(a, b - a), "blocklist-tostring",
                     "toString of [%zu, %zu) gave %u bytes: %s", a, b, str.numBytes, log.c_str());
            vf::count("toString ranges");
        }
        vf::evals(steps);
        vf::distinct(vf::hashStr(mod));
        // Hand the list over as one string; the first block alone may be adopted
        if (r.chance(1, 2)) {
            char* start = bl.head->start();
            String str = BlockList::toString({std::move(bl.head), start});
            VF_CHECK(vf::str(str) == mod, "blocklist-tostring", "moved-out contents differ: %s", log.c_str());
        }
    }
    VF_CHECK(vf::liveBytes() == b0, "blocklist-leak", "bytes outlive the block list");
}
VF_MAIN()

// Blocks walked both ways, kept alive from the middle, and appended where the last may be reused.
VF_WORKLOAD(blockwalk, 6000, 60000) {
    using Footer = BlockList::Footer;
    size_t b0 = vf::liveBytes();
    {
        u32 numBlocks = 1 + r.below(8);
        vf::Str all;
        std::vector<Footer*> blocks;
        std::vector<size_t> starts;
        Reference<Footer> head, keep;
        u32 keepAt = r.below(numBlocks);
        Footer* tail = nullptr;
        for (u32 i = 0; i < numBlocks; i++) {
            u32 size = 128 + r.below(200);
            if (i == 0) {
                head = BlockList::createBlock(size);
                tail = head;
            } else
                tail = BlockList::appendBlock(tail, size);
            blocks.push_back(tail);
            starts.push_back(all.size());
            u32 used = r.chance(1, 4) ? size : 1 + r.below(size);
            for (u32 k = 0; k < used; k++) {
                tail->bytes[k] = (char) r.below(256);
                all += tail->bytes[k];
            }
            tail->numBytesUsed = used;
            if (i == keepAt)
                keep = tail;
        }
        auto walk = [&](u32 from, const char* when) {
            // Forward, then back
            BlockList::WeakRef w{blocks[from], blocks[from]->unused()};
            vf::Str got = vf::str(blocks[from]->viewUsedBytes());
            u32 at = from;
            while (u32 n = BlockList::jumpToNextBlock(&w)) {
                at++;
                VF_CHECK(at < blocks.size() && w.block == blocks[at] && w.byte == blocks[at]->start() && n == blocks[at]->numBytesUsed, "jump-next", "block %u %s", at, when);
                VF_CHECK(w.block->fileOffset == starts[at], "file-offset", "block %u %s", at, when);
                got += vf::str(w.block->viewUsedBytes());
                w.byte = w.block->unused();
            }
            VF_CHECK(at + 1 == blocks.size() && got == all.substr(starts[from]), "walk", "%zu bytes %s", got.size(), when);
            for (;;) {
                w.byte = w.block->start();
                u32 n = BlockList::jumpToPrevBlock(&w);
                if (!n)
                    break;
                VF_CHECK(at > from, "jump-prev", "goes before the first block %s", when);
                at--;
                VF_CHECK(w.block == blocks[at] && w.byte == blocks[at]->unused() && n == blocks[at]->numBytesUsed, "jump-prev", "block %u %s", at, when);
            }
            VF_CHECK(at == from, "jump-prev", "stops at %u %s", at, when);
        };
        walk(0, "whole");
        head.clear();
        walk(keepAt, "after the head is dropped");
        // The rest as a string, from inside the first kept block, which others may still refer to
        Reference<Footer> other;
        if (r.chance(1, 2))
            other = keep;
        u32 ofs = r.below(keep->numBytesUsed + 1);
        vf::Str want = all.substr(starts[keepAt] + ofs);
        String got = BlockList::toString(BlockList::Ref{keep, keep->start() + ofs}, {});
        VF_CHECK(vf::str(got) == want, "kept-tostring", "%u bytes, not %zu", got.numBytes, want.size());
        // Appending may reuse a block nobody else refers to
        Reference<Footer> last = blocks.back();
        u64 end = last->fileOffset + last->numBytesUsed;
        vf::Str before = vf::str(last->viewUsedBytes());
        Footer* old = last;
        bool shared = r.chance(1, 2);
        if (!shared) {
            other.clear();
            keep.clear();
        }
        Reference<Footer> watch;
        if (shared)
            watch = last;
        u32 size = r.chance(1, 2) ? last->blockSize : 128 + r.below(300);
        bool mustKeep = last->refCount > 1;
        BlockList::appendBlockWithRecycle(last, size);
        VF_CHECK(last->fileOffset == end && last->numBytesUsed == 0 && last->blockSize == size && last->nextBlock.isEmpty(), "recycle", "a block of %u at %llu", size,
                 (unsigned long long) end);
        if (mustKeep)
            VF_CHECK(last != old && watch->viewUsedBytes() == vf::view(before) && watch->nextBlock == last.get() && last->prevBlock == old, "recycle-shared",
                     "a block others refer to changed");
        memset(last->bytes, 1, size);
        vf::count("blocks walked", numBlocks);
        vf::distinct(vf::hashStr(all));
        vf::evals(4);
    }
    VF_CHECK(vf::liveBytes() == b0, "leak", "%lld bytes", (long long) (vf::liveBytes() - b0));
}
