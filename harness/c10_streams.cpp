// Buffered input and output streams over pipes that split, end and fail anywhere, against a byte model.
#include "pipevf.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <ply-runtime/io/impl/FormatString.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <sys/time.h>
#include <sys/wait.h>
using namespace ply;
using vf::Str;

static Str randData(vf::Rng& r, uint32_t max) {
    Str s;
    uint32_t n = r.size(max);
    int kind = r.below(3);
    for (uint32_t i = 0; i < n; i++) {
        // position-dependent, so that misplaced bytes are seen
        char c = (char) (vf::mix(i / 3 + (n << 8)) >> (8 * (i % 3)));
        if (kind == 1)
            c = r.chance(1, 20) ? '\n' : r.chance(1, 9) ? ' ' : 'a' + (i * 7 + i / 26) % 26;
        if (kind == 2 && r.chance(1, 200))
            c = '\n';
        s += c;
    }
    return s;
}

struct Save {
    BlockList::Ref ref;
    size_t pos;
};

VF_WORKLOAD(inHistory, 80000, 500000) {
    Str data = randData(r, r.chance(1, 4) ? 12000 : 1500);
    bool destroyed = false, owns = r.chance(3, 4);
    Str log;
    bool bad = false;
    {
        vf::SrcPipe* pipe = new vf::SrcPipe(data, r.u64(), r.pick({0u, 1u, 3u, 40u, 128u, 129u, 700u}));
        pipe->destroyed = &destroyed;
        Owned<InPipe> holder;
        Owned<InStream> ins;
        u32 bse = r.pick({7u, 7u, 8u, 10u, 12u});
        if (owns)
            ins = Owned<InStream>::create(OptionallyOwned<InPipe>{Owned<InPipe>{pipe}}, bse);
        else {
            holder = pipe;
            ins = Owned<InStream>::create(OptionallyOwned<InPipe>{borrow((InPipe*) pipe)}, bse);
        }
        {
            std::vector<Save> saves;
            size_t pos = 0;
            uint32_t steps = 1 + r.size(150);
            bool done = false;
            auto rest = [&] { return data.size() - pos; };
            auto note = [&](const char* op, size_t a) {
                if (log.size() < 3000)
                    log += Str(op) + ":" + std::to_string(a) + " ";
                vf::count(Str("in.") + op);
            };
#define CK(cond, key, ...) \
    if (!(cond)) { \
        vf::fail(key, __VA_ARGS__); \
        bad = true; \
        break; \
    }
            for (uint32_t st = 0; st < steps && !done; st++) {
                vf::ctx("case: " + std::to_string(data.size()) + " bytes, block 2^" + std::to_string(bse) + "; ops: " + log);
                uint32_t n = r.chance(1, 8) ? r.size(5000) : r.chance(1, 3) ? r.below(300) : r.below(20);
                switch (r.below(14)) {
                    case 0:
                    case 1: { // look ahead
                        n = n ? n : 1;
                        note("avail", n);
                        u32 got = ins->tryMakeBytesAvailable(n);
                        CK(got >= n || got == rest(), "avail", "asked %u, got %u with %zu left", n, got, rest());
                        size_t have = ins->numBytesAvailable();
                        CK(have >= got && have <= rest(), "avail-view", "got %u, %zu in view, %zu left", got, have, rest());
                        CK(vf::str(ins->viewAvailable()) == data.substr(pos, have), "avail-bytes",
                           "bytes ahead at %zu are wrong", pos);
                        if (have > 0) {
                            u32 k = r.below((u32) have);
                            CK(ins->peekByte(k) == data[pos + k], "peek", "byte %zu", pos + k);
                        }
                        break;
                    }
                    case 2: {
                        note("byte", 1);
                        u8 c = ins->readByte();
                        CK(c == (rest() ? (u8) data[pos] : 0), "byte", "byte %zu of %zu is %02x", pos, data.size(), c);
                        if (rest())
                            pos++;
                        break;
                    }
                    case 3:
                    case 4: {
                        note("read", n);
                        vf::Exact buf(Str(n, '\x77'));
                        bool ok = ins->read(MutableStringView{buf.p, n});
                        Str want = data.substr(pos, n);
                        CK(ok == (want.size() == n), "read-result", "read %u with %zu left returned %d", n, rest(), ok);
                        size_t k = want.size();
                        want.resize(n, '\0');
                        CK(Str(buf.p, n) == want, "read-bytes", "read %u at %zu", n, pos);
                        pos += k;
                        break;
                    }
                    case 5: {
                        note("skip", n);
                        bool ok = ins->skip(n);
                        CK(ok == (n <= rest()), "skip-result", "skip %u with %zu left returned %d", n, rest(), ok);
                        pos += std::min<size_t>(n, rest());
                        break;
                    }
                    case 6: { // consume part of what is buffered
                        u32 have = ins->numBytesAvailable();
                        n = have ? r.below(have + 1) : 0;
                        note("advance", n);
                        ins->advanceByte(n);
                        pos += n;
                        break;
                    }
                    case 7:
                        note("save", pos);
                        if (saves.size() < 6)
                            saves.push_back({ins->getBlockRef(), pos});
                        break;
                    case 8:
                        if (!saves.empty()) {
                            size_t i = r.below((uint32_t) saves.size());
                            note("rewind", saves[i].pos);
                            ins->rewind(saves[i].ref);
                            pos = saves[i].pos;
                            CK(!ins->atEOF(), "rewind-eof", "still at end after rewind");
                            vf::maxOf("rewind distance", data.size() - pos);
                        }
                        break;
                    case 9:
                        if (!saves.empty()) {
                            size_t i = r.below((uint32_t) saves.size());
                            note("forget", saves[i].pos);
                            saves.erase(saves.begin() + i);
                        }
                        break;
                    case 10:
                        for (auto& s : saves) {
                            if (s.pos > pos)
                                continue;
                            note("range", pos - s.pos);
                            BlockList::Ref from = s.ref;
                            String t = BlockList::toString(std::move(from), ins->getBlockRef());
                            CK(vf::str(t) == data.substr(s.pos, pos - s.pos), "range", "saved %zu..%zu is wrong", s.pos, pos);
                        }
                        break;
                    case 11: {
                        int k = r.below(3);
                        note(k == 0 ? "line" : k == 1 ? "nonwhite" : "white", 0);
                        String got;
                        size_t e = pos;
                        auto white = [](char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; };
                        if (k == 0) {
                            got = ins->readString<fmt::Line>();
                            e = data.find('\n', pos);
                            e = e == Str::npos ? data.size() : e + 1;
                        } else if (k == 1) {
                            got = ins->readString<fmt::NonWhitespace>();
                            while (e < data.size() && !white(data[e]))
                                e++;
                        } else {
                            got = ins->readString<fmt::Whitespace>();
                            while (e < data.size() && white(data[e]))
                                e++;
                        }
                        CK(vf::str(got) == data.substr(pos, e - pos), "text", "kind %d at %zu: %u bytes, expected %zu", k, pos,
                           got.numBytes, e - pos);
                        pos = e;
                        break;
                    }
                    case 12: {
                        note("move", 0);
                        if (r.chance(1, 2)) {
                            InStream other{std::move(*ins)};
                            CK(ins->atEOF() && !ins->tryMakeBytesAvailable(), "moved-from", "a moved-from stream has bytes");
                            CK(other.getSeekPos() == pos, "moved-pos", "position %llu after move, expected %zu",
                               (unsigned long long) other.getSeekPos(), pos);
                            *ins = std::move(other);
                        } else {
                            Owned<InStream> other = Owned<InStream>::create(std::move(*ins));
                            ins = std::move(other);
                        }
                        break;
                    }
                    case 13:
                        if (r.chance(1, 25)) {
                            note("rest", rest());
                            String t = ins->readRemainingContents();
                            CK(vf::str(t) == data.substr(pos), "rest", "%u bytes, expected %zu", t.numBytes, rest());
                            CK(ins->atEOF() && !ins->tryMakeBytesAvailable(3) && ins->readByte() == 0, "after-rest",
                               "bytes after the remaining contents were read");
                            done = true;
                        }
                        break;
                }
                if (!done)
                    CK(ins->getSeekPos() == pos, "pos", "position %llu, expected %zu", (unsigned long long) ins->getSeekPos(),
                       pos);
            }
            vf::maxOf("saves", saves.size());
            if (bad)
                saves.clear();
        }
        ins.clear();
        VF_EXPECT(destroyed == owns, "pipe-owner", "the stream %s its pipe", owns ? "kept" : "destroyed a borrowed");
    }
    VF_CHECK(destroyed, "pipe-destroyed", "pipe never destroyed");
    vf::distinct(vf::hashStr(log, vf::hashStr(data)));
}

// Whole-stream reads with one style leave no memory behind and never ask the pipe for nothing.
VF_WORKLOAD(inLeak, 3000, 60000) {
    Str data = randData(r, 9000);
    uint64_t seed = r.u64();
    uint32_t piece = r.pick({0u, 1u, 50u, 128u}), k = 1 + r.below(400), style = r.below(3);
    bool okRead = true;
    size_t before = vf::liveBytes();
    {
        InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{new vf::SrcPipe(data, seed, piece)}}, 7};
        BlockList::Ref mark = ins.getBlockRef();
        if (style == 0)
            mark = BlockList::Ref{};
        while (u32 got = ins.tryMakeBytesAvailable(k)) {
            if (style == 2 && got > 1)
                ins.advanceByte(got / 2);
            else
                ins.advanceByte(std::min<u32>(got, ins.numBytesAvailable()));
        }
        if (style != 0) {
            ins.rewind(mark);
            for (size_t i = 0; i < data.size() && okRead; i++)
                okRead = ins.readByte() == (u8) data[i];
        }
    }
    size_t after = vf::liveBytes();
    VF_CHECK(okRead, "reread", "rereading after rewind differs");
    VF_CHECK(before == after, "leak", "%zd bytes left behind", (ssize_t)(after - before));
    vf::distinct(vf::hashStr(data, piece * 1000 + k));
}

// A view stream over a buffer of exactly its size.
VF_WORKLOAD(viewIn, 8000, 150000) {
    Str data = randData(r, 400);
    vf::Exact mem(data);
    ViewInStream vins{mem.view()};
    std::vector<std::pair<ViewInStream::SavePoint, size_t>> saves;
    size_t pos = 0;
    for (uint32_t st = 0, e = 1 + r.size(60); st < e; st++) {
        size_t rest = data.size() - pos;
        switch (r.below(8)) {
            case 0: {
                u32 n = 1 + r.size(500), got = vins.tryMakeBytesAvailable(n);
                VF_CHECK(got >= n || got == rest, "view-avail", "asked %u of %zu, got %u", n, rest, got);
                VF_CHECK(vf::str(vins.viewAvailable()) == data.substr(pos), "view-bytes", "at %zu", pos);
                break;
            }
            case 1: {
                u8 c = vins.readByte();
                VF_CHECK(c == (rest ? (u8) data[pos] : 0), "view-byte", "at %zu", pos);
                VF_CHECK(rest || vins.atEOF(), "view-eof", "read past the end unreported");
                pos += rest > 0;
                break;
            }
            case 2: {
                u32 n = r.size(500);
                vf::Exact buf(Str(n, '\x77'));
                bool ok = vins.read(MutableStringView{buf.p, n});
                Str want = data.substr(pos, n);
                size_t k = want.size();
                VF_CHECK(ok == (k == n), "view-read", "%u of %zu: %d", n, rest, ok);
                want.resize(n, '\0');
                VF_CHECK(Str(buf.p, n) == want, "view-read-bytes", "at %zu", pos);
                pos += k;
                break;
            }
            case 3: {
                u32 n = r.size(500);
                bool ok = vins.skip(n);
                VF_CHECK(ok == (n <= rest), "view-skip", "%u of %zu: %d", n, rest, ok);
                pos += std::min<size_t>(n, rest);
                break;
            }
            case 4:
                saves.push_back({vins.savePoint(), pos});
                break;
            case 5:
                if (!saves.empty()) {
                    auto& s = saves[r.below((uint32_t) saves.size())];
                    if (s.second <= pos) {
                        VF_CHECK(vf::str(vins.getViewFrom(s.first)) == data.substr(s.second, pos - s.second), "view-from",
                                 "%zu..%zu", s.second, pos);
                        vins.restore(s.first);
                        pos = s.second;
                    }
                }
                break;
            case 6: {
                size_t e2 = data.find('\n', pos);
                e2 = e2 == Str::npos ? data.size() : e2 + 1;
                StringView line = vins.readView<fmt::Line>();
                VF_CHECK(vf::str(line) == data.substr(pos, e2 - pos), "view-line", "at %zu", pos);
                pos = e2;
                break;
            }
            default:
                VF_CHECK(vins.getSeekPos() == pos, "view-pos", "%llu", (unsigned long long) vins.getSeekPos());
        }
    }
    vf::distinct(vf::hashStr(data, pos));
}

// One random write; appends what was accepted to model. Returns false when the stream refused.
static void writeOp(OutStream* outs, Str& model, vf::Rng& r, bool mayMake, Str& log) {
    uint32_t n = r.chance(1, 10) ? r.size(9000) : r.chance(1, 3) ? r.below(400) : r.below(12);
    Str piece;
    for (uint32_t i = 0; i < n; i++)
        piece += (char) vf::mix(model.size() + i);
    int op = r.below(mayMake ? 6 : 5);
    if (log.size() < 3000)
        log += std::to_string(op) + ":" + std::to_string(n) + " ";
    switch (op) {
        case 0:
        case 1: {
            vf::Exact e(piece);
            bool ok = outs->write(e.view());
            VF_CHECK(ok == !outs->atEOF(), "write-result", "write returned %d, atEOF %d", ok, outs->atEOF());
            if (ok)
                model += piece;
            break;
        }
        case 2: {
            char c = (char) r.u32();
            if (outs->writeByte(c))
                model += c;
            break;
        }
        case 3: {
            u32 want = n ? n : 1;
            u32 room = outs->tryMakeBytesAvailable(want);
            VF_CHECK(room >= want || outs->atEOF(), "room", "asked for %u, got %u without an error", want, room);
            VF_CHECK(room < want || (u32) outs->numBytesAvailable() >= want, "room-view", "asked for %u: %d in view", want,
                     outs->numBytesAvailable());
            u32 use = r.below(std::min<u32>(room, outs->numBytesAvailable()) + 1);
            use = std::min<u32>(use, (u32) piece.size());
            memcpy(outs->curByte, piece.data(), use);
            outs->curByte += use;
            model.append(piece, 0, use);
            break;
        }
        case 4: {
            vf::Exact e(piece);
            if (outs->atEOF())
                break;
            *outs << e.view();
            if (!outs->atEOF())
                model += piece;
            break;
        }
        default: {
            u32 want = n ? n : 1;
            outs->makeBytesAvailable(want);
            VF_CHECK((u32) outs->numBytesAvailable() >= want, "make", "asked for %u: %d in view", want,
                     outs->numBytesAvailable());
            u32 use = std::min<u32>(r.below(want + 1), (u32) piece.size());
            memcpy(outs->curByte, piece.data(), use);
            outs->curByte += use;
            if (!outs->atEOF())
                model.append(piece, 0, use);
        }
    }
}

VF_WORKLOAD(outHistory, 50000, 300000) {
    Str model, out, log;
    bool destroyed = false, owns = r.chance(3, 4);
    u32 bse = r.pick({7u, 8u, 10u, 12u});
    {
        vf::SinkPipe* sink = new vf::SinkPipe{&out};
        sink->destroyed = &destroyed;
        Owned<OutPipe> holder;
        Owned<OutStream> outs;
        if (owns)
            outs = Owned<OutStream>::create(OptionallyOwned<OutPipe>{Owned<OutPipe>{sink}}, bse);
        else {
            holder = sink;
            outs = Owned<OutStream>::create(OptionallyOwned<OutPipe>{borrow((OutPipe*) sink)}, bse);
        }
        for (uint32_t st = 0, e = 1 + r.size(80); st < e; st++) {
            vf::ctx("block 2^" + std::to_string(bse) + "; ops: " + log);
            uint32_t op = r.below(10);
            if (op < 7)
                writeOp(outs, model, r, true, log);
            else if (op == 7) {
                bool dev = r.chance(1, 2);
                log += dev ? "flush " : "flushMem ";
                uint32_t f = sink->flushes;
                if (dev) {
                    sink->flushResult = r.chance(3, 4);
                    bool rc = outs->flush();
                    VF_CHECK(rc == sink->flushResult, "flush-result", "device flush %d reported as %d", sink->flushResult, rc);
                } else
                    outs->flushMem();
                VF_CHECK(sink->flushes == f + 1, "flush-pass", "the pipe was flushed %u times", sink->flushes - f);
                VF_CHECK(out == model, "flush-bytes", "after flush %zu bytes arrived of %zu", out.size(), model.size());
                vf::count("flushes");
            } else if (op == 8) {
                log += "move ";
                if (r.chance(1, 2)) {
                    OutStream other{std::move(*outs)};
                    VF_CHECK(!outs->writeByte('!') && outs->tryMakeBytesAvailable() == 0, "moved-from",
                             "a moved-from stream accepts bytes");
                    *outs = std::move(other);
                } else {
                    Owned<OutStream> other = Owned<OutStream>::create(std::move(*outs));
                    outs = std::move(other);
                }
            }
            if (vf::st().caseFailed)
                return;
            VF_CHECK(outs->getSeekPos() == model.size(), "out-pos", "position %llu after %zu bytes",
                     (unsigned long long) outs->getSeekPos(), model.size());
            VF_CHECK(model.compare(0, out.size(), out) == 0 && out.size() <= model.size(), "out-order",
                     "what arrived is not a prefix of what was written");
            VF_CHECK(!outs->atEOF(), "out-eof", "error reported by a pipe that accepts everything");
        }
        outs.clear();
        VF_CHECK(destroyed == owns, "out-owner", "pipe destroyed=%d, owned=%d", destroyed, owns);
    }
    VF_CHECK(out == model, "out-bytes", "%zu bytes arrived of %zu", out.size(), model.size());
    vf::count("bytes written", model.size());
    vf::distinct(vf::hashStr(model));
}

// The destination fails at a random byte.
VF_WORKLOAD(outFail, 50000, 250000) {
    Str model, out, log;
    u32 bse = r.pick({7u, 8u, 12u});
    size_t failAt = r.size(6000);
    bool destroyed = false;
    vf::SinkPipe* sink = new vf::SinkPipe{&out};
    sink->destroyed = &destroyed;
    sink->failAt = failAt;
    bool failed = false, reported = false;
    {
        OutStream outs{OptionallyOwned<OutPipe>{Owned<OutPipe>{sink}}, bse};
        // everything offered, accepted or not
        for (uint32_t st = 0, e = 1 + r.size(120); st < e; st++) {
            vf::ctx("block 2^" + std::to_string(bse) + ", fails at " + std::to_string(failAt) + "; ops: " + log);
            bool eofBefore = outs.atEOF();
            uint32_t n = r.chance(1, 10) ? r.size(9000) : r.below(300);
            Str piece;
            for (uint32_t i = 0; i < n; i++)
                piece += (char) vf::mix(model.size() + i);
            switch (r.below(7)) {
                case 6: {
                    log += "t" + std::to_string(n) + " ";
                    u32 room = outs.tryMakeBytesAvailable(n + 1);
                    VF_CHECK(room > n || outs.atEOF(), "fail-room", "asked for %u, got %u, no failure reported", n + 1, room);
                    piece.resize(std::min<size_t>(r.below(n + 1), std::min<size_t>(room, outs.numBytesAvailable())));
                    memcpy(outs.curByte, piece.data(), piece.size());
                    outs.curByte += piece.size();
                    break;
                }
                case 0:
                case 1:
                case 2: {
                    log += "w" + std::to_string(n) + " ";
                    bool ok = outs.write(vf::view(piece));
                    VF_CHECK(ok == !outs.atEOF() || n == 0, "fail-write-result", "write returned %d, failed %d", ok, outs.atEOF());
                    VF_CHECK(!(ok && eofBefore && n), "fail-write-after", "write succeeds after a failure");
                    break;
                }
                case 3: {
                    log += "b ";
                    piece = piece.empty() ? Str("x") : piece.substr(0, 1);
                    outs.writeByte(piece[0]);
                    break;
                }
                case 4: {
                    log += "m" + std::to_string(n) + " ";
                    outs.makeBytesAvailable(n + 1);
                    VF_CHECK((u32) outs.numBytesAvailable() > n, "fail-make", "no room after makeBytesAvailable");
                    memcpy(outs.curByte, piece.data(), n);
                    outs.curByte += n;
                    break;
                }
                default:
                    log += "f ";
                    outs.flush(r.chance(1, 2));
                    piece.clear();
            }
            model += piece;
            VF_CHECK(!sink->failed || outs.atEOF(), "fail-unreported", "the pipe failed, the stream does not say so");
            VF_CHECK(!eofBefore || outs.atEOF(), "fail-forgotten", "the failure was forgotten");
            VF_CHECK(sink->failed || !outs.atEOF(), "fail-spurious", "failure reported, pipe accepts");
            failed = sink->failed;
            reported = outs.atEOF();
        }
        VF_CHECK(sink->afterFailure == 0, "fail-gap", "%u writes reached the pipe after it failed", sink->afterFailure);
    }
    VF_CHECK(destroyed, "fail-destroy", "pipe not destroyed");
    VF_CHECK(out == model.substr(0, out.size()) && out.size() == std::min(failAt, model.size()), "fail-bytes",
             "%zu bytes arrived, %zu offered, failure at %zu", out.size(), model.size(), failAt);
    if (failed)
        vf::count("failed destinations");
    (void) reported;
    vf::distinct(vf::hashStr(out, failAt));
}

// In memory, to a string.
VF_WORKLOAD(memOut, 20000, 150000) {
    Str model, log;
    u32 bse = r.pick({7u, 8u, 12u});
    bool useMove = r.chance(1, 5), drop = r.chance(1, 8);
    Str got;
    {
        MemOutStream mout{bse};
        for (uint32_t st = 0, e = r.size(60); st < e; st++) {
            vf::ctx("block 2^" + std::to_string(bse) + "; ops: " + log);
            writeOp(&mout, model, r, true, log);
            if (vf::st().caseFailed)
                return;
            VF_CHECK(mout.getSeekPos() == model.size(), "mem-pos", "position %llu after %zu bytes",
                     (unsigned long long) mout.getSeekPos(), model.size());
            if (r.chance(1, 10)) {
                mout.flush();
                Str seen;
                for (StringView v : BlockList::iterateOverViews(mout.getHeadRef()))
                    seen += vf::str(v);
                VF_CHECK(seen == model, "mem-blocks", "blocks hold %zu bytes of %zu", seen.size(), model.size());
            }
        }
        if (useMove) {
            OutStream os{std::move(mout)};
            VF_CHECK(!mout.writeByte('x'), "mem-moved", "moved-from stream accepts bytes");
            os.write("tail");
            os.flush();
        } else if (!drop) {
            String s = mout.moveToString();
            got = vf::str(s);
            VF_CHECK(got == model, "mem-string", "%zu bytes, expected %zu", got.size(), model.size());
            VF_CHECK(!mout.writeByte('x') && !mout.write("abc") && mout.atEOF(), "mem-after", "stream accepts bytes after moveToString");
        }
    }
    vf::distinct(vf::hashStr(model));
}
VF_WORKLOAD(memLeak, 3000, 50000) {
    uint32_t n = r.size(20000), piece = 1 + r.size(900);
    int style = r.below(3);
    u32 bse = r.pick({7u, 9u, 12u});
    size_t before = vf::liveBytes();
    {
        MemOutStream m{bse};
        for (uint32_t i = 0; i < n; i += piece)
            m.format("{}{}", StringView{"abcdefghijklmnop", 16}, i);
        if (style == 0)
            m.moveToString();
        else if (style == 1) {
            OutStream o{std::move(m)};
            o.write("zz");
        }
    }
    size_t after = vf::liveBytes();
    VF_CHECK(before == after, "mem-leak", "%zd bytes left behind (style %d)", (ssize_t)(after - before), style);
    vf::distinct(n * 7919ull + piece);
}

// Fixed buffer: exactly its size, never a byte more.
VF_WORKLOAD(viewOut, 8000, 150000) {
    uint32_t cap = r.size(700);
    vf::Exact mem(Str(cap, '\x55'));
    Str model;
    bool over = false;
    {
        ViewOutStream vouts{MutableStringView{mem.p, cap}};
        for (uint32_t st = 0, e = r.size(40); st < e; st++) {
            Str piece = randData(r, 200);
            if (r.chance(1, 4)) {
                bool ok = vouts.writeByte(7);
                VF_CHECK(ok == (model.size() < cap), "vout-byte", "%zu of %u: %d", model.size(), cap, ok);
                if (ok)
                    model += (char) 7;
                else
                    over = true;
            } else if (r.chance(1, 3)) {
                u32 n = 1 + r.below(300), room = vouts.tryMakeBytesAvailable(n);
                VF_CHECK(room >= n || room == cap - model.size(), "vout-room", "asked %u: %u", n, room);
                over |= room < n;
            } else {
                bool ok = vouts.write(vf::view(piece));
                size_t fit = std::min<size_t>(piece.size(), cap - model.size());
                if (!over)
                    VF_CHECK(ok == (fit == piece.size()), "vout-write", "%zu into %zu: %d", piece.size(), cap - model.size(), ok);
                if (fit < piece.size()) {
                    VF_CHECK(vouts.atEOF(), "vout-eof", "overflow not reported");
                    size_t pos = (size_t) vouts.getSeekPos();
                    VF_CHECK(pos >= model.size() && pos <= cap, "vout-overpos", "position %zu", pos);
                    fit = pos - model.size();
                    over = true;
                } else if (vouts.getSeekPos() == model.size())
                    fit = 0; // refused after an earlier overflow
                model.append(piece, 0, fit);
            }
            VF_CHECK(vouts.getSeekPos() == model.size(), "vout-pos", "%llu, expected %zu", (unsigned long long) vouts.getSeekPos(),
                     model.size());
        }
    }
    VF_CHECK(Str(mem.p, model.size()) == model, "vout-bytes", "buffer contents differ");
    for (size_t i = model.size(); i < cap; i++)
        VF_CHECK(mem.p[i] == '\x55', "vout-beyond", "byte %zu touched beyond %zu written", i, model.size());
    vf::distinct(vf::hashStr(model, cap));
}

// Real descriptors: a process pair over a kernel pipe, interrupted by signals, with peers that vanish.
static void onAlarm(int) {
}
VF_WORKLOAD(fdPipe, 250, 4000) {
    Str data;
    uint32_t n = r.size(400000);
    for (uint32_t i = 0; i < n; i++)
        data += (char) vf::mix(i);
    int fds[2];
    if (pipe(fds) != 0)
        return;
    fcntl(fds[1], F_SETPIPE_SZ, 4096);
    bool weWrite = r.chance(1, 2), vanish = r.chance(1, 3);
    uint32_t stop = vanish ? r.size(n) : n;
    signal(SIGPIPE, SIG_IGN);
    struct sigaction sa = {};
    sa.sa_handler = onAlarm; // no SA_RESTART
    sigaction(SIGALRM, &sa, 0);
    int back[2];
    if (pipe(back) != 0)
        return;
    uint64_t seed = r.u64();
    pid_t pid = fork();
    if (pid == 0) {
        // the peer: plain system calls
        vf::Rng cr(seed);
        uint64_t h = 0;
        uint32_t total = 0;
        if (weWrite) {
            close(fds[1]);
            char buf[8192];
            while (total < stop || !vanish) {
                ssize_t k = read(fds[0], buf, 1 + cr.below(sizeof(buf)));
                if (k <= 0)
                    break;
                for (ssize_t i = 0; i < k; i++)
                    h = h * 31 + (unsigned char) buf[i];
                total += (uint32_t) k;
                if (cr.chance(1, 30))
                    usleep(200);
            }
        } else {
            close(fds[0]);
            while (total < stop) {
                ssize_t k = write(fds[1], data.data() + total, std::min<size_t>(1 + cr.below(7000), stop - total));
                if (k <= 0)
                    break;
                total += (uint32_t) k;
                if (cr.chance(1, 30))
                    usleep(200);
            }
        }
        uint64_t res[2] = {h, total};
        if (write(back[1], res, sizeof(res)) != sizeof(res))
            _exit(1);
        _exit(0);
    }
    struct itimerval it = {{0, 900}, {0, 900}}, off = {};
    setitimer(ITIMER_REAL, &it, 0);
    Str got;
    bool ok = true;
    if (weWrite) {
        close(fds[0]);
        OutStream outs{OptionallyOwned<OutPipe>{Owned<OutPipe>{new OutPipe_FD{fds[1]}}}};
        size_t i = 0;
        while (i < data.size() && ok) {
            size_t k = std::min<size_t>(1 + r.below(9000), data.size() - i);
            ok = outs.write(StringView{data.data() + i, (u32) k});
            i += k;
        }
        outs.flush();
        ok = !outs.atEOF();
    } else {
        close(fds[1]);
        InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{new InPipe_FD{fds[0]}}}};
        uint32_t guard = 0;
        while (ins.tryMakeBytesAvailable(1 + r.below(300)) && ++guard < 3000000) {
            got += vf::str(ins.viewAvailable());
            ins.curByte = ins.endByte;
        }
        VF_EXPECT(ins.atEOF(), "fd-eof", "end of input not reported");
    }
    setitimer(ITIMER_REAL, &off, 0);
    uint64_t res[2] = {0, 0};
    close(back[1]);
    ssize_t rr;
    while ((rr = read(back[0], res, sizeof(res))) < 0 && errno == EINTR)
        ;
    close(back[0]);
    while (waitpid(pid, 0, 0) < 0 && errno == EINTR)
        ;
    VF_CHECK(rr == sizeof(res), "fd-peer", "peer process did not report");
    if (weWrite) {
        uint64_t h = 0;
        for (uint32_t i = 0; i < res[1] && i < n; i++)
            h = h * 31 + (unsigned char) data[i];
        VF_CHECK(res[1] <= n && h == res[0], "fd-write", "the peer received %llu bytes, not a prefix of the %u written",
                 (unsigned long long) res[1], n);
        if (ok && !vanish)
            VF_CHECK(res[1] == n, "fd-write-all", "write reported success, %llu of %u bytes arrived", (unsigned long long) res[1], n);
        if (!vanish)
            VF_CHECK(ok, "fd-write-fail", "write to a live peer failed (interrupted %s)", "by signals");
        if (vanish && res[1] + 70000 < n)
            VF_CHECK(!ok, "fd-write-lost", "peer left after %llu of %u bytes, success reported", (unsigned long long) res[1], n);
    } else
        VF_CHECK(got == data.substr(0, res[1]), "fd-read", "%zu bytes read of %llu sent", got.size(), (unsigned long long) res[1]);
    vf::count(weWrite ? "fd.write" : "fd.read");
    vf::count("fd.vanished peers", vanish);
    vf::distinct(vf::mix(n) + stop);
}

// Descriptors that report errors, and files.
VF_WORKLOAD(fdMisc, 400, 6000) {
    if (r.chance(1, 4)) {
        int fd = open(vf::scratch().c_str(), O_RDONLY | O_DIRECTORY); // read() fails with EISDIR
        InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{new InPipe_FD{fd}}}};
        char buf[10];
        VF_CHECK(!ins.read(MutableStringView{buf, 10}) && ins.atEOF(), "fd-error", "a failing read is not reported");
        vf::count("fd.read errors");
        return;
    }
    if (r.chance(1, 4)) {
        int fd = open("/dev/full", O_WRONLY);
        {
            OutStream outs{OptionallyOwned<OutPipe>{Owned<OutPipe>{new OutPipe_FD{fd}}}};
            Str d = randData(r, 20000) + "x";
            outs.write(vf::view(d));
            outs.flush();
            VF_CHECK(outs.atEOF(), "fd-full", "a full device is not reported");
        }
        vf::count("fd.full devices");
        return;
    }
    Str path = vf::scratch() + "/f" + std::to_string(getpid());
    Str data = randData(r, 30000);
    {
        int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        OutPipe* op = new OutPipe_FD{fd};
        OutStream outs{OptionallyOwned<OutPipe>{Owned<OutPipe>{op}}, r.pick({7u, 12u})};
        size_t i = 0;
        while (i < data.size()) {
            size_t k = std::min<size_t>(1 + r.below(3000), data.size() - i);
            outs.write(StringView{data.data() + i, (u32) k});
            i += k;
        }
        outs.flush();
        VF_CHECK(op->seek(0, SeekDir::Cur) == data.size() && op->seek(0, SeekDir::End) == data.size() &&
                     op->seek(3, SeekDir::Set) == 3,
                 "fd-seek", "seek positions are wrong");
        op->seek(0, SeekDir::End);
    }
    int fd = open(path.c_str(), O_RDONLY);
    InPipe_FD in{fd};
    VF_CHECK(in.getFileSize() == data.size(), "fd-size", "%llu", (unsigned long long) in.getFileSize());
    vf::Exact buf(Str(data.size(), 0));
    VF_CHECK(in.read(MutableStringView{buf.p, buf.n}) && Str(buf.p, buf.n) == data, "fd-file", "file contents differ");
    char c;
    VF_CHECK(!in.read(MutableStringView{&c, 1}), "fd-file-end", "read past the end");
    unlink(path.c_str());
    vf::distinct(vf::hashStr(data));
}

// Typed values in native byte order.
VF_WORKLOAD(nativeEndian, 500, 5000) {
    MemOutStream m{7};
    NativeEndianWriter w{&m};
    std::vector<uint64_t> vals;
    uint32_t n = r.below(200);
    for (uint32_t i = 0; i < n; i++) {
        uint64_t v = r.u64();
        vals.push_back(v);
        switch (i % 4) {
            case 0:
                w.write((u8) v);
                break;
            case 1:
                w.write((s16) v);
                break;
            case 2:
                w.write((u32) v);
                break;
            default:
                w.write(v);
        }
    }
    Str bytes = vf::str(m.moveToString());
    InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{new vf::SrcPipe(bytes, r.u64(), r.pick({0u, 1u, 5u}))}}, 7};
    NativeEndianReader rd{&ins};
    for (uint32_t i = 0; i < n; i++) {
        uint64_t v = vals[i];
        bool ok = i % 4 == 0 ? rd.read<u8>() == (u8) v
                             : i % 4 == 1 ? rd.read<s16>() == (s16) v : i % 4 == 2 ? rd.read<u32>() == (u32) v : rd.read<u64>() == v;
        VF_CHECK(ok, "native", "value %u", i);
    }
    VF_CHECK(!ins.tryMakeBytesAvailable(), "native-end", "bytes left over");
    vf::distinct(vf::hashStr(bytes));
}

VF_MAIN()
