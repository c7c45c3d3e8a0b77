// C15: saving with a crash, an error, a short transfer and an observer at every system call.
#include "plyvf.h"
#include "fsvf.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
using namespace ply;
using vf::Str;
namespace fs = vf::fs;

// What the destination contains right now, without the wrapped functions.
static const char* dest = nullptr;
static const Str *oldData = nullptr, *newData = nullptr; // oldData null: the file did not exist
enum { Missing = 0, IsOld = 1, IsNew = 2, Torn = 3 };
static char obs[1 << 20];
static int observe() {
    long fd = syscall(SYS_openat, AT_FDCWD, dest, O_RDONLY | O_CLOEXEC);
    if (fd < 0)
        return oldData ? Torn : Missing;
    size_t n = 0;
    long k;
    while (n < sizeof obs && (k = syscall(SYS_read, fd, obs + n, sizeof obs - n)) > 0)
        n += (size_t) k;
    syscall(SYS_close, fd);
    if (newData->size() == n && memcmp(newData->data(), obs, n) == 0)
        return IsNew;
    if (oldData && oldData->size() == n && memcmp(oldData->data(), obs, n) == 0)
        return IsOld;
    return Torn;
}

// The n-th system call of a save: what happens to it.
enum Fault { None, CrashBefore, CrashAfter, Error, Short, ShortThenCrash, ShortThenError };
struct State {
    int calls = 0, at = -1, err = 0, torn = 0, hits = 0, tornAt = 0;
    bool armed = false, unlinkFailed = false, failWrites = false;
    Fault fault = None;
    char order[400] = {};
};
static State S;
static bool enter(char kind, Fault* f) { // true if the call is to fail
    *f = None;
    if (!S.armed)
        return false;
    int n = S.calls++;
    if (n < (int) sizeof(S.order) - 1)
        S.order[n] = kind;
    if (observe() == Torn && !S.torn++)
        S.tornAt = n;
    if (S.failWrites && kind == 'w') {
        errno = S.err;
        return true;
    }
    if (n != S.at)
        return false;
    S.hits++;
    *f = S.fault;
    if (*f == CrashBefore)
        _exit(S.torn ? 3 : 0);
    if (*f == Error && kind != 'c') {
        errno = S.err;
        if (kind == 'u')
            S.unlinkFailed = true;
        return true;
    }
    return false;
}
static void leave(Fault f) {
    if (!S.armed)
        return;
    if (observe() == Torn && !S.torn++)
        S.tornAt = S.calls - 1;
    if (f == CrashAfter)
        _exit(S.torn ? 3 : 0);
}
extern "C" {
#define WRAP(kind, name, ret, params, args, bad) \
    ret __real_##name params; \
    ret __wrap_##name params; \
    ret __wrap_##name params { \
        Fault f; \
        if (enter(kind, &f)) \
            return bad; \
        ret rc = __real_##name args; \
        int e = errno; \
        leave(f); \
        errno = e; \
        return rc; \
    }
WRAP('m', mkdir, int, (const char* p, mode_t m), (p, m), -1)
WRAP('r', rename, int, (const char* a, const char* b), (a, b), -1)
WRAP('u', unlink, int, (const char* p), (p), -1)
WRAP('s', stat, int, (const char* p, struct stat* s), (p, s), -1)
WRAP('c', close, int, (int fd), (fd), -1)
WRAP('t', ftruncate, int, (int fd, off_t n), (fd, n), -1)
ssize_t __real_read(int fd, void* p, size_t n);
ssize_t __wrap_read(int fd, void* p, size_t n);
ssize_t __wrap_read(int fd, void* p, size_t n) {
    Fault f;
    if (enter('R', &f))
        return -1;
    if (f >= Short && n > 1)
        n = (n + 1) / 2;
    if (f == ShortThenError)
        S.at++, S.fault = Error;
    ssize_t rc = __real_read(fd, p, n);
    leave(f);
    if (f == ShortThenCrash)
        _exit(S.torn ? 3 : 0);
    return rc;
}
ssize_t __real_write(int fd, const void* p, size_t n);
ssize_t __wrap_write(int fd, const void* p, size_t n);
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    Fault f;
    if (enter('w', &f))
        return -1;
    if (f >= Short && n > 1)
        n = (n + 1) / 2;
    if (f == ShortThenError)
        S.at++, S.fault = Error;
    ssize_t rc = __real_write(fd, p, n);
    leave(f);
    if (f == ShortThenCrash)
        _exit(S.torn ? 3 : 0);
    return rc;
}
int __real_open(const char* p, int flags, ...);
int __wrap_open(const char* p, int flags, ...);
int __wrap_open(const char* p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    Fault f;
    if (enter('o', &f))
        return -1;
    int rc = __real_open(p, flags, mode);
    int e = errno;
    leave(f);
    errno = e;
    return rc;
}
}

// Text as the format writes it: independent of the library.
static Str encoded(const Str& text, const TextFormat& tf) {
    Str out;
    auto put = [&](u32 c) {
        if (tf.encoding == TextFormat::Encoding::UTF8) {
            if (c < 0x80)
                out += (char) c;
            else if (c < 0x800)
                out += (char) (0xc0 | c >> 6), out += (char) (0x80 | (c & 63));
            else if (c < 0x10000)
                out += (char) (0xe0 | c >> 12), out += (char) (0x80 | (c >> 6 & 63)), out += (char) (0x80 | (c & 63));
            else
                out += (char) (0xf0 | c >> 18), out += (char) (0x80 | (c >> 12 & 63)), out += (char) (0x80 | (c >> 6 & 63)), out += (char) (0x80 | (c & 63));
            return;
        }
        bool be = tf.encoding == TextFormat::Encoding::UTF16_be;
        auto unit = [&](u32 u) {
            out += (char) (be ? u >> 8 : u);
            out += (char) (be ? u : u >> 8);
        };
        if (c < 0x10000)
            unit(c);
        else
            unit(0xd800 + ((c - 0x10000) >> 10)), unit(0xdc00 + ((c - 0x10000) & 0x3ff));
    };
    if (tf.bom)
        put(0xfeff);
    for (size_t i = 0; i < text.size();) {
        u8 b = (u8) text[i];
        u32 n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4, c = n == 1 ? b : b & (0xff >> (n + 1));
        for (u32 k = 1; k < n; k++)
            c = c << 6 | ((u8) text[i + k] & 63);
        i += n;
        if (c == '\n' && tf.newLine == TextFormat::NewLine::CRLF)
            put('\r');
        put(c);
    }
    return out;
}

static Str content(vf::Rng& r) {
    switch (r.below(6)) {
        case 0:
            return "";
        case 1:
            return Str(r.below(200000), (char) ('a' + r.below(26)));
        case 2:
            return vf::randBytes(r, 5000);
        default:
            return vf::randBytes(r, 40);
    }
}
static Str textContent(vf::Rng& r) {
    Str s;
    for (u32 n = r.below(r.chance(1, 8) ? 5000 : 30); n > 0; n--)
        s += r.pick({Str("a"), Str("\n"), Str("line"), Str("\xc3\xa9"), Str("\xe2\x82\xac"), Str("\xf0\x9f\x98\x80")});
    return s;
}

struct Case {
    Str base, dir, rel, path, old, data, text;
    bool exists, isText, virt;
    TextFormat tf;
    Owned<FileSystem> fsys;
    FSResult run() {
        FileSystem* f = virt ? (FileSystem*) fsys : FileSystem::native();
        Str p = virt ? rel : path;
        return isText ? f->makeDirsAndSaveTextIfDifferent(vf::view(p), vf::view(text), tf) : f->makeDirsAndSaveBinaryIfDifferent(vf::view(p), vf::view(data));
    }
    void reset() { // the state before the save
        fs::wipe(base);
        ::mkdir(base.c_str(), 0755);
        Str d = base;
        for (size_t i = 0; i < rel.size() && exists; i++)
            if (rel[i] == '/') {
                d = base + "/" + rel.substr(0, i);
                ::mkdir(d.c_str(), 0755);
            }
        if (exists)
            fs::writeAll(path, old);
    }
};
static void setup(vf::Rng& r, uint64_t idx, Case& c, const char* tag) {
    c.base = vf::scratch() + vf::fmt("/%s%llu", tag, (unsigned long long) idx);
    c.rel = r.pick({Str("f.txt"), Str("d/f"), Str("d/e/f.tmp"), Str("x y/\xc3\xa9"), Str(".h"), Str(200, 'n')});
    c.path = c.base + "/" + c.rel;
    c.exists = r.chance(3, 4);
    c.virt = r.chance(1, 4);
    c.isText = r.chance(1, 3);
    c.old = content(r);
    c.data = content(r);
    if (c.isText) {
        c.text = textContent(r);
        c.tf.encoding = r.pick({TextFormat::Encoding::UTF8, TextFormat::Encoding::UTF16_be, TextFormat::Encoding::UTF16_le});
        c.tf.newLine = r.pick({TextFormat::NewLine::LF, TextFormat::NewLine::CRLF});
        c.tf.bom = r.chance(1, 2);
        c.data = encoded(c.text, c.tf);
    }
    switch (r.below(6)) { // contents that are easily mistaken for each other
        case 0:
            c.old = c.data;
            break;
        case 1:
            c.old = c.data + vf::randBytes(r, 9) + "z";
            break;
        case 2:
            if (c.data.size())
                c.old = c.data.substr(0, r.below((uint32_t) c.data.size()));
            break;
        case 3:
            if (c.data.size()) {
                c.old = c.data;
                c.old[r.below((uint32_t) c.old.size())] ^= 1;
            }
            break;
    }
    c.reset();
    if (c.virt)
        c.fsys = FileSystem::native()->createVirtual(vf::view(c.base));
    oldData = c.exists ? &c.old : nullptr;
    newData = &c.data;
    dest = c.path.c_str();
}
static int strays(const Case& c) { // files besides the destination
    int n = 0;
    for (auto& x : fs::snap(c.base))
        n += x.second[0] != 'd' && x.first != c.rel;
    return n;
}

// Runs once without faults and returns the number of system calls, then with a fault at each of them.
VF_WORKLOAD(crash_points, 140, 4000) {
    Case c;
    setup(r, idx, c, "c");
    bool same = c.exists && c.old == c.data;
    struct stat before, after;
    int had = lstat(dest, &before) == 0;
    S = State();
    S.armed = true;
    int fds = fs::openFds();
    FSResult res = c.run();
    S.armed = false;
    VF_CHECK(res == (same ? FSResult::Unchanged : FSResult::OK) && FileSystem::native()->lastResult() == res, "result", "saving gives %d (same contents: %d)", (int) res, same);
    VF_CHECK(observe() == IsNew, "contents", "the file does not have the new contents");
    VF_CHECK(!S.torn, "moment", "at system call %d of %s the destination is neither the old nor the new file", S.tornAt, S.order);
    VF_CHECK(strays(c) == 0, "stray", "a save leaves %d other files behind", strays(c));
    VF_CHECK(fs::openFds() == fds, "descriptors", "descriptors are left open");
    if (same && had) {
        lstat(dest, &after);
        VF_CHECK(before.st_ino == after.st_ino && before.st_mtim.tv_sec == after.st_mtim.tv_sec && before.st_mtim.tv_nsec == after.st_mtim.tv_nsec && before.st_mode == after.st_mode,
                 "touched", "an identical file was replaced");
        vf::count("identical files left alone");
    }
    int total = S.calls;
    vf::distinct(vf::hashStr(Str(S.order) + c.rel) ^ vf::hashStr(c.data) ^ vf::hashStr(c.old));
    vf::sample(vf::fmt("calls %s", S.order));
    bool all = vf::thorough() || total < 14;
    static const Fault faults[] = {CrashBefore, CrashAfter, Error, Short, ShortThenCrash, ShortThenError};
    static const int errs[] = {EIO, ENOSPC, EACCES, EDQUOT, EROFS, EMFILE, ENOMEM, EPERM, EBUSY};
    for (int at = 0; at < total && !vf::failed(); at++) {
        for (Fault f : faults) {
            if (!all && !r.chance(1, 2))
                continue;
            char kind = at < (int) sizeof(S.order) ? S.order[at] : '?';
            if (f >= Short && kind != 'R' && kind != 'w')
                continue;
            char order[sizeof S.order];
            memcpy(order, S.order, sizeof order);
            c.reset();
            vf::ctx(vf::fmt("fault %d at call %d of %s", (int) f, at, order));
            int status = -1;
            bool crash = f == CrashBefore || f == CrashAfter || f == ShortThenCrash;
            int err = r.pick({errs[0], errs[1], errs[2], errs[3], errs[4], errs[5], errs[6], errs[7], errs[8]});
            if (crash) {
                pid_t pid = fork();
                if (pid == 0) {
                    S = State();
                    S.at = at, S.fault = f, S.err = err, S.armed = true;
                    c.run();
                    S.armed = false;
                    _exit(S.torn ? 3 : 1);
                }
                if (pid < 0 || waitpid(pid, &status, 0) != pid)
                    abort();
                VF_CHECK(WIFEXITED(status) && WEXITSTATUS(status) != 66 && WEXITSTATUS(status) != 99, "crash-report", "status %x", status);
                VF_CHECK(WEXITSTATUS(status) != 3, "moment", "before a crash at call %d of %s, the destination is neither the old nor the new file", at, order);
                int o = observe();
                VF_CHECK(o != Torn, "crash", "after a crash %s call %d of %s, the destination is neither the old nor the new file", f == CrashBefore ? "before" : "in or after",
                         at, order);
                // the next save succeeds
                if (r.chance(1, 3)) {
                    res = c.run();
                    VF_CHECK((res == FSResult::OK || (res == FSResult::Unchanged && (o == IsNew))) && observe() == IsNew, "after-crash", "saving again gives %d", (int) res);
                }
                vf::count("crashes");
            } else {
                S = State();
                S.at = at, S.fault = f, S.err = err, S.armed = true;
                res = c.run();
                S.armed = false;
                int o = observe();
                State s = S;
                memcpy(S.order, order, sizeof order);
                VF_CHECK(!s.torn && o != Torn, "fault", "with errno %d at call %d of %s, the destination is neither the old nor the new file", err, at, order);
                if (res == FSResult::OK || res == FSResult::Unchanged)
                    VF_CHECK(o == IsNew, "false-success", "with errno %d at call %d of %s, the result is success, but the file isn't there", err, at, order);
                if (f == Short)
                    VF_CHECK(res == (same ? FSResult::Unchanged : FSResult::OK) || kind == 'R', "short", "with a short transfer at call %d of %s, saving gives %d", at, order, (int) res);
                VF_CHECK(FileSystem::native()->lastResult() == res, "last", "result %d", (int) res);
                VF_CHECK(s.unlinkFailed || strays(c) == 0, "stray-failed", "with errno %d at call %d of %s, a temporary file is left", err, at, order);
                VF_CHECK(fs::openFds() == fds, "descriptors", "descriptors are left open by errno %d at call %d of %s", err, at, order);
                vf::count(f == Error ? "errors" : "short transfers");
            }
            vf::distinct(vf::fmt("%d %d %d %s", (int) f, at, err, order));
        }
    }
    fs::wipe(c.base);
}

// The disk is full, or the folder can't be written: no success, old contents stay.
VF_WORKLOAD(environment, 300, 4000) {
    Case c;
    setup(r, idx, c, "e");
    bool same = c.exists && c.old == c.data;
    Str parent = c.path.substr(0, c.path.rfind('/'));
    int how = r.below(5);
    bool mustFail = true;
    S = State();
    if (how == 0) {
        S.failWrites = true;
        S.err = ENOSPC;
        mustFail = !c.data.empty();
    } else if (how == 1) {
        if (geteuid() == 0 || !c.exists)
            return fs::wipe(c.base);
        chmod(parent.c_str(), 0555);
        mustFail = !same;
    } else if (how == 2) {
        if (geteuid() == 0 || !c.exists)
            return fs::wipe(c.base);
        chmod(dest, 0);
    } else if (how == 3) { // the destination is a directory
        fs::wipe(c.base);
        ::mkdir(c.base.c_str(), 0755);
        for (size_t i = 1; i <= c.rel.size(); i++)
            if (i == c.rel.size() || c.rel[i] == '/')
                ::mkdir((c.base + "/" + c.rel.substr(0, i)).c_str(), 0755);
        same = false;
    } else { // a parent is a file
        if (c.rel.find('/') == Str::npos)
            return fs::wipe(c.base);
        fs::wipe(c.base);
        ::mkdir(c.base.c_str(), 0755);
        fs::writeAll(c.base + "/" + c.rel.substr(0, c.rel.find('/')), "in the way");
        same = false;
    }
    fs::Snap before = fs::snap(c.base);
    S.armed = how == 0;
    FSResult res = c.run();
    S.armed = false;
    fs::Snap now = fs::snap(c.base);
    if (how == 0 && same)
        mustFail = false;
    if (mustFail) {
        VF_CHECK(res != FSResult::OK && res != FSResult::Unchanged, "environment-result", "saving gives success in environment %d", how);
        if (how != 0 || c.exists)
            VF_CHECK(now == before, "environment-tree", "a failed save in environment %d changes the tree:%s", how, fs::diff(before, now).substr(0, 500).c_str());
        VF_CHECK(strays(c) == 0 || how == 4, "environment-stray", "a failed save leaves a file");
    }
    chmod(parent.c_str(), 0755);
    vf::count("hostile environments");
    vf::distinct(vf::fmt("%d %d %d", how, c.exists, same) + c.rel);
    fs::wipe(c.base);
}

// Someone else reads, or saves, at the same time.
struct Reader {
    const char* path;
    const Str *a, *b;
    volatile int stop = 0;
    long reads = 0, bad = 0, flips = 0;
};
static void* readerThread(void* p) {
    Reader* x = (Reader*) p;
    Str s;
    int last = -1;
    while (!x->stop) {
        s.clear();
        if (!fs::readAll(x->path, &s)) {
            x->bad++;
            continue;
        }
        int now = s == *x->a ? 0 : s == *x->b ? 1 : 2;
        x->bad += now == 2;
        x->flips += now != last;
        last = now;
        x->reads++;
    }
    return nullptr;
}
struct Saver {
    Str path;
    const Str *a, *b;
    uint64_t seed;
    int bad = 0;
};
static void* saverThread(void* p) {
    Saver* x = (Saver*) p;
    vf::Rng r(x->seed);
    for (int i = 0; i < 60; i++) {
        FSResult res = FileSystem::native()->makeDirsAndSaveBinaryIfDifferent(vf::view(x->path), vf::view(r.chance(1, 2) ? *x->a : *x->b));
        if (res != FSResult::OK && res != FSResult::Unchanged)
            x->bad++;
    }
    return nullptr;
}
VF_WORKLOAD_SERIAL(readers, 24, 600) {
    Str base = vf::scratch() + vf::fmt("/r%llu", (unsigned long long) idx);
    ::mkdir(base.c_str(), 0755);
    Str path = base + "/shared";
    Str a(r.pick({3u, 5000u, 70000u, 400000u}), 'a'), b(r.pick({0u, 3u, 6000u, 400001u}), 'b');
    fs::writeAll(path, a);
    Reader rd[2];
    pthread_t rt[2], st[3];
    Saver sv[3];
    u32 n = 1 + r.below(3);
    for (auto& x : rd) {
        x.path = path.c_str();
        x.a = &a;
        x.b = &b;
    }
    for (int i = 0; i < 2; i++)
        pthread_create(&rt[i], nullptr, readerThread, &rd[i]);
    for (u32 i = 0; i < n; i++) {
        sv[i].path = path;
        sv[i].a = &a;
        sv[i].b = &b;
        sv[i].seed = r.u64();
        pthread_create(&st[i], nullptr, saverThread, &sv[i]);
    }
    int bad = 0;
    for (u32 i = 0; i < n; i++) {
        pthread_join(st[i], nullptr);
        bad += sv[i].bad;
    }
    for (int i = 0; i < 2; i++) {
        rd[i].stop = 1;
        pthread_join(rt[i], nullptr);
        VF_EXPECT(rd[i].bad == 0, "reader", "%ld of %ld reads during saves see neither contents", rd[i].bad, rd[i].reads);
        vf::count("concurrent reads", rd[i].reads);
        vf::count("changes seen by readers", rd[i].flips);
    }
    VF_EXPECT(bad == 0, "savers", "%d saves at the same time fail", bad);
    VF_EXPECT(fs::names(base).size() == 1, "savers-stray", "saves at the same time leave %zu files", fs::names(base).size());
    vf::distinct(vf::fmt("%zu %zu %u", a.size(), b.size(), n));
    fs::wipe(base);
}

VF_MAIN()
