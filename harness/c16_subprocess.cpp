// C16: child processes with random arguments, folders, redirections and payloads. The child is this program itself,
// taken over before main() by a constructor, and reports what it was given.
#include "plyvf.h"
#include "fsvf.h"
#include <pthread.h>
#include <sys/wait.h>
using namespace ply;
using vf::Str;
namespace fs = vf::fs;

//-------------------------------- The child
static Str* childArgv(int* n) {
    static Str v[4096];
    int fd = open("/proc/self/cmdline", O_RDONLY);
    Str all;
    char b[65536];
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0)
        all.append(b, (size_t) k);
    close(fd);
    size_t at = 0;
    *n = 0;
    while (at < all.size() && *n < 4096) {
        size_t e = all.find('\0', at);
        if (e == Str::npos)
            e = all.size();
        v[(*n)++] = all.substr(at, e - at);
        at = e + 1;
    }
    return v;
}
static void put(int fd, const void* p, size_t n) {
    const char* c = (const char*) p;
    while (n > 0) {
        ssize_t k = write(fd, c, n);
        if (k <= 0)
            _exit(90);
        c += k;
        n -= (size_t) k;
    }
}
static void putStr(int fd, const Str& s) {
    u32 n = (u32) s.size();
    put(fd, &n, 4);
    put(fd, s.data(), s.size());
}
static char pat(char tag, size_t i) {
    return (char) (tag + i * 7 + (i >> 8));
}
static Str pattern(char tag, size_t n) {
    Str s(n, 0);
    for (size_t i = 0; i < n; i++)
        s[i] = pat(tag, i);
    return s;
}
__attribute__((constructor(65000))) static void childMain() {
    char marker[64] = {};
    int fd = open("/proc/self/cmdline", O_RDONLY);
    char head[300] = {};
    ssize_t k = read(fd, head, sizeof head - 1);
    close(fd);
    size_t l = strlen(head) + 1;
    (void) marker;
    if (k <= (ssize_t) l || strcmp(head + l, "--vfchild") != 0)
        return;
    int argc;
    Str* argv = childArgv(&argc);
    const Str& script = argv[2]; // commands separated by ';'
    size_t at = 0;
    while (at < script.size()) {
        size_t e = script.find(';', at);
        Str cmd = script.substr(at, e - at);
        at = e + 1;
        long n = atol(cmd.c_str() + 1);
        switch (cmd[0]) {
            case 'a': // the arguments
                putStr(1, vf::fmt("%d", argc - 3));
                for (int i = 3; i < argc; i++)
                    putStr(1, argv[i]);
                break;
            case 'c': {
                char b[8192];
                putStr(1, getcwd(b, sizeof b) ? b : "?");
                break;
            }
            case 'f': { // open descriptors and what 0..2 are, to descriptor n
                Str s;
                for (int i = 0; i < 1024; i++) {
                    char b[300], p[40];
                    if (fcntl(i, F_GETFD) == -1)
                        continue;
                    snprintf(p, sizeof p, "/proc/self/fd/%d", i);
                    ssize_t q = readlink(p, b, sizeof b);
                    Str what(b, q > 0 ? (size_t) q : 0);
                    if (what.find("/proc/") == 0)
                        continue; // opened by the sanitizer
                    s += vf::fmt("%d=", i) + what + "\n";
                }
                putStr((int) n, s);
                break;
            }
            case 'o':
            case 'e': {
                Str s = pattern(cmd[0], (size_t) n);
                put(cmd[0] == 'o' ? 1 : 2, s.data(), s.size());
                break;
            }
            case 'b': // alternate between both
                for (long i = 0; i < n; i++) {
                    char o = pat('o', (size_t) i), x = pat('e', (size_t) i);
                    put(1, &o, 1);
                    put(2, &x, 1);
                }
                break;
            case 'r': { // echo all input
                char b[3000];
                ssize_t q;
                while ((q = read(0, b, sizeof b)) > 0)
                    put(1, b, (size_t) q);
                break;
            }
            case 'z':
                close(0);
                break;
            case 'Z':
                close(1);
                break;
            case 's':
                usleep((useconds_t) n);
                break;
            case 'k':
                signal((int) n, SIG_DFL);
                kill(getpid(), (int) n);
                usleep(10000000);
                break;
            case 'x':
                _exit((int) n);
        }
    }
    _exit(0);
}

//-------------------------------- The parent
static Str exe() {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b);
    return Str(b, n > 0 ? (size_t) n : 0);
}
struct Drain {
    InPipe* in;
    u32 chunk;
    Str got;
    bool more = false;
};
static void* drainThread(void* p) {
    Drain* d = (Drain*) p;
    std::vector<char> b(d->chunk);
    while (u32 n = d->in->readSome({b.data(), d->chunk}))
        d->got.append(b.data(), n);
    d->more = d->in->readSome({b.data(), d->chunk}) != 0;
    return nullptr;
}
struct Feed {
    OutPipe* out;
    const Str* data;
    size_t chunk;
    bool ok = true;
};
static void* feedThread(void* p) {
    Feed* f = (Feed*) p;
    for (size_t at = 0; at < f->data->size() && f->ok; at += f->chunk)
        f->ok = f->out->write(vf::view(f->data->substr(at, f->chunk)));
    return nullptr;
}
static Str framed(const Str& s) {
    u32 n = (u32) s.size();
    return Str((const char*) &n, 4) + s;
}
static Str randArg(vf::Rng& r) {
    switch (r.below(7)) {
        case 0:
            return "";
        case 1:
            return r.pick({Str("a b"), Str("\"q\""), Str("'"), Str("\\"), Str("$HOME"), Str("*"), Str("--x=1"), Str("\n"), Str("\\\"")});
        case 2:
            return Str(r.below(60000), 'A');
        default: {
            Str s = vf::randBytes(r, 20);
            for (char& c : s)
                if (c == 0)
                    c = 'n';
            return s;
        }
    }
}
static std::set<int> inheritable() { // what a child gets besides 0..2
    std::set<int> v;
    for (int i = 3; i < 256; i++) {
        int f = fcntl(i, F_GETFD);
        struct stat s;
        if (f != -1 && !(f & FD_CLOEXEC) && fstat(i, &s) == 0)
            v.insert(i);
    }
    return v;
}
struct Result {
    Str out, err;
    bool fed = true, eof = true;
    s32 code = 0;
};
static Result collect(Owned<Subprocess>& sub, const Str& input, vf::Rng& r, bool joinFirst = false) {
    Result res;
    Drain o{sub->readFromStdOut, 1 + r.below(r.chance(1, 2) ? 10 : 70000), {}}, e{sub->readFromStdErr, 1 + r.below(70000), {}};
    Feed f{sub->writeToStdIn, &input, 1 + r.below(r.chance(1, 2) ? 100 : 100000)};
    pthread_t to = 0, te = 0, tf = 0;
    if (o.in)
        pthread_create(&to, nullptr, drainThread, &o);
    if (e.in)
        pthread_create(&te, nullptr, drainThread, &e);
    if (f.out) {
        pthread_create(&tf, nullptr, feedThread, &f);
        pthread_join(tf, nullptr);
        sub->writeToStdIn.clear();
    }
    if (joinFirst)
        res.code = sub->join();
    if (o.in)
        pthread_join(to, nullptr);
    if (e.in)
        pthread_join(te, nullptr);
    if (!joinFirst)
        res.code = sub->join();
    res.out = o.got;
    res.err = e.got;
    res.fed = f.ok;
    res.eof = !o.more && !e.more;
    return res;
}
static Array<StringView> argViews(const std::vector<Str>& v) {
    Array<StringView> a;
    for (const Str& s : v)
        a.append(vf::view(s));
    return a;
}
static const size_t SIZES[] = {0, 1, 100, 4095, 4096, 4097, 65535, 65536, 65537, 200000, 1000000};

VF_WORKLOAD(launch, 260, 4000) {
    signal(SIGPIPE, SIG_IGN);
    int fds = fs::openFds();
    Str base = vf::scratch() + vf::fmt("/p%llu", (unsigned long long) idx);
    ::mkdir(base.c_str(), 0755);
    {
        // the script and what it must produce on each stream
        Str script, out, err, input, dir;
        std::vector<Str> args = {"--vfchild", ""};
        for (u32 n = r.below(r.chance(1, 10) ? 300 : 8); n > 0; n--)
            args.push_back(r.chance(1, 10) || args.size() < 40 ? randArg(r) : Str("x"));
        int inMode = r.below(3); // open, ignore, from a file
        int outMode = r.below(5); // separate, merged, stdout only, ignore, to files
        int code = r.chance(1, 2) ? 0 : (int) r.below(256), sig = 0;
        bool useDir = r.chance(1, 2), merged = outMode == 1;
        if (useDir) {
            dir = base + "/" + r.pick({Str("d"), Str("d e"), Str("\xc3\xa9")});
            ::mkdir(dir.c_str(), 0755);
        }
        Str* errTo = merged ? &out : &err;
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd))
            abort();
        for (u32 n = 1 + r.below(5); n > 0; n--) {
            size_t k = r.chance(1, 4) ? SIZES[r.below(sizeof(SIZES) / sizeof(SIZES[0]))] : r.below(300);
            switch (r.below(6)) {
                case 0:
                    script += "a;";
                    out += framed(vf::fmt("%zu", args.size() - 2));
                    for (size_t i = 2; i < args.size(); i++)
                        out += framed(args[i]);
                    break;
                case 1:
                    script += "c;";
                    out += framed(useDir ? dir : Str(cwd));
                    break;
                case 2:
                    script += vf::fmt("o%zu;", k);
                    out += pattern('o', k);
                    break;
                case 3:
                    script += vf::fmt("e%zu;", k);
                    *errTo += pattern('e', k);
                    break;
                case 4:
                    k %= 3000;
                    script += vf::fmt("b%zu;", k);
                    for (size_t i = 0; i < k; i++) {
                        out += pat('o', i);
                        *errTo += pat('e', i);
                    }
                    break;
                default:
                    script += vf::fmt("s%u;", r.below(2000));
            }
        }
        if (r.chance(2, 3)) {
            input = r.chance(1, 2) ? vf::randBytes(r, 300) : pattern('i', SIZES[r.below(sizeof(SIZES) / sizeof(SIZES[0]))]);
            script += "r;";
            if (inMode != 1)
                out += input;
        }
        if (r.chance(1, 8)) {
            sig = r.pick({SIGKILL, SIGTERM, SIGUSR1, SIGPIPE, SIGINT});
            script += vf::fmt("k%d;", sig);
        } else
            script += vf::fmt("x%d;", code);
        args[1] = script;
        vf::ctx(vf::fmt("in %d out %d ", inMode, outMode) + script.substr(0, 200));
        Subprocess::Input si = inMode == 0 ? Subprocess::Input::open() : Subprocess::Input::ignore();
        Owned<InPipe> fileIn;
        if (inMode == 2) {
            fs::writeAll(base + "/in", input);
            fileIn = FileSystem::native()->openPipeForRead(vf::view(base + "/in"));
            si.stdInPipe = fileIn;
        }
        Subprocess::Output so = outMode == 0   ? Subprocess::Output::openSeparate()
                                : outMode == 1 ? Subprocess::Output::openMerged()
                                : outMode == 2 ? Subprocess::Output::openStdOutOnly()
                                               : Subprocess::Output::ignore();
        Owned<OutPipe> fo, fe;
        bool shared = outMode == 4 && r.chance(1, 3);
        if (outMode == 4) {
            fo = FileSystem::native()->openPipeForWrite(vf::view(base + "/out"));
            fe = FileSystem::native()->openPipeForWrite(vf::view(base + "/err"));
            so.stdOutPipe = fo;
            so.stdErrPipe = fe;
            if (shared)
                so.stdErr = Subprocess::Pipe::StdOut;
        }
        Str path = exe();
        Owned<Subprocess> sub = Subprocess::exec(vf::view(path), argViews(args), vf::view(dir), so, si);
        VF_CHECK(sub, "exec", "no subprocess");
        VF_CHECK((bool) sub->writeToStdIn == (inMode == 0) && (bool) sub->readFromStdOut == (outMode <= 2) && (bool) sub->readFromStdErr == (outMode == 0), "pipes",
                 "wrong pipes are open");
        Result res = collect(sub, input, r);
        VF_CHECK(res.code == (sig ? -1 : code), "exit-code", "exit code is %d, expected %d (signal %d)", res.code, code, sig);
        VF_CHECK(res.eof, "eof", "data after the end of a stream");
        bool reads = script.find("r;") != Str::npos;
        VF_CHECK(res.fed || !reads, "feed", "writing the input fails");
        if (outMode == 4) {
            fo.clear();
            fe.clear();
            fs::readAll(base + "/out", &res.out);
            fs::readAll(base + "/err", &res.err);
            if (shared) {
                VF_CHECK(res.err.empty(), "merged", "output on the wrong stream");
                VF_CHECK(res.out.size() == out.size() + err.size(), "merged-size", "%zu bytes, expected %zu", res.out.size(), out.size() + err.size());
                res.out = out;
                res.err = err;
            }
        }
        if (outMode != 3)
            VF_CHECK(res.out == out, "stdout", "standard output has %zu bytes, expected %zu%s", res.out.size(), out.size(),
                     res.out.size() == out.size() ? ", with different contents" : "");
        if (outMode == 0 || outMode == 4)
            VF_CHECK(res.err == err, "stderr", "standard error has %zu bytes, expected %zu", res.err.size(), err.size());
        errno = 0;
        VF_CHECK(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "zombie", "a child is left after join");
        vf::count("bytes from children", res.out.size() + res.err.size());
        vf::count("bytes to children", inMode == 0 ? input.size() : 0);
        vf::count(sig ? "children that were killed" : "children that exited");
        vf::distinct(vf::hashStr(script) ^ (u64) (inMode * 8 + outMode));
    }
    int left = fs::openFds() - fds;
    // the library keeps one descriptor for /dev/null in each direction
    static int extra = 0;
    extra += left;
    VF_CHECK(extra <= 2, "descriptors", "%d descriptors are left after several launches", extra);
    fs::wipe(base);
}

// The child has the descriptors it was given and no others.
VF_WORKLOAD(descriptors, 120, 1500) {
    signal(SIGPIPE, SIG_IGN);
    Str path = exe();
    std::set<int> other = inheritable();
    int keep = r.below(4);
    std::vector<Owned<Subprocess>> held(1);
    Owned<Subprocess> subs[4];
    // earlier children that stay open must not be visible to later ones
    for (int i = 0; i < keep; i++) {
        std::vector<Str> a = {"--vfchild", "r;"};
        subs[i] = Subprocess::exec(vf::view(path), argViews(a), {}, r.chance(1, 2) ? Subprocess::Output::openSeparate() : Subprocess::Output::openMerged());
    }
    int outMode = r.below(4), inMode = r.below(2);
    int to = outMode == 3 ? 1 : r.chance(1, 2) ? 1 : 2;
    if (outMode == 2)
        to = 1;
    std::vector<Str> a = {"--vfchild", vf::fmt("f%d;x7;", to)};
    Subprocess::Output so = outMode == 0   ? Subprocess::Output::openSeparate()
                            : outMode == 1 ? Subprocess::Output::openMerged()
                                           : Subprocess::Output::openStdOutOnly();
    if (outMode == 3) {
        so = Subprocess::Output::inherit();
        so.stdOut = Subprocess::Pipe::Open;
    }
    Owned<Subprocess> sub =
        Subprocess::exec(vf::view(path), argViews(a), {}, so, inMode ? Subprocess::Input::open() : Subprocess::Input::ignore());
    Result res = collect(sub, "", r);
    VF_CHECK(res.code == 7, "exit-code", "exit code is %d", res.code);
    Str s = to == 1 || outMode == 1 ? res.out : res.err;
    VF_CHECK(s.size() > 4, "list", "no list of descriptors");
    s = s.substr(4);
    std::map<int, Str> got;
    for (size_t at = 0; at < s.size();) {
        size_t e = s.find('\n', at), q = s.find('=', at);
        got[atoi(s.c_str() + at)] = s.substr(q + 1, e - q - 1);
        at = e + 1;
    }
    for (int i = 0; i < 3; i++)
        VF_CHECK(got.count(i), "closed", "descriptor %d is closed", i);
    for (auto& x : got)
        VF_CHECK(x.first < 3 || (other.count(x.first) && x.second.find("pipe:") != 0), "inherited", "the child also has descriptor %d: %s", x.first, x.second.c_str());
    VF_CHECK((got[0] == "/dev/null") == !inMode, "null-in", "standard input is %s", got[0].c_str());
    if (outMode == 1)
        VF_CHECK(got[1] == got[2], "merged", "standard error is %s", got[2].c_str());
    if (outMode == 2)
        VF_CHECK(got[2] == "/dev/null", "null-out", "standard error is %s", got[2].c_str());
    if (outMode == 0)
        VF_CHECK(got[1] != got[2], "separate", "both streams are %s", got[2].c_str());
    if (outMode == 3) {
        char b[300];
        ssize_t n = readlink("/proc/self/fd/2", b, sizeof b);
        VF_CHECK(got[2] == Str(b, n > 0 ? (size_t) n : 0), "inherit", "standard error is %s", got[2].c_str());
    }
    for (int i = keep - 1; i >= 0; i--) {
        Str in = vf::randBytes(r, 100);
        Result q = collect(subs[i], in, r);
        VF_CHECK(q.out == in && q.code == 0, "held", "an earlier child gives %zu of %zu bytes", q.out.size(), in.size());
    }
    vf::distinct(vf::fmt("%d %d %d %d", outMode, inMode, to, keep));
    vf::count("descriptor tables examined");
}

VF_WORKLOAD(failures, 150, 1500) {
    signal(SIGPIPE, SIG_IGN);
    Str base = vf::scratch() + vf::fmt("/x%llu", (unsigned long long) idx), path = exe(), dir;
    ::mkdir(base.c_str(), 0755);
    fs::writeAll(base + "/plain", "not a program");
    std::vector<Str> a = {"--vfchild", "o5;x0;"};
    int how = r.below(6);
    Str input;
    if (how == 0)
        path = base + "/missing";
    else if (how == 1)
        path = base + "/plain";
    else if (how == 2)
        path = base;
    else if (how == 3)
        dir = base + "/missing";
    else if (how == 4)
        dir = base + "/plain";
    else { // the child ends without reading
        a[1] = r.pick({Str("x3;"), Str("z;s2000;x3;"), Str("o1000000;x3;")});
        input = Str(300000, 'i');
    }
    vf::ctx(vf::fmt("failure %d", how));
    signal(SIGABRT, SIG_DFL);
    int fds = fs::openFds();
    {
        Owned<Subprocess> sub = Subprocess::exec(vf::view(path), argViews(a), vf::view(dir), Subprocess::Output::openSeparate());
        Result res = collect(sub, input, r);
        if (how < 5)
            VF_CHECK(res.code == -1 && res.out.empty(), "failed-launch", "launching nothing (%d) gives %d and %zu bytes", how, res.code, res.out.size());
        else {
            VF_CHECK(res.code == 3, "early-exit", "exit code %d", res.code);
            VF_CHECK(!res.fed, "early-exit-write", "300000 bytes were written to a child that reads none");
        }
    }
    errno = 0;
    VF_CHECK(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "zombie", "a child is left");
    int left = fs::openFds() - fds;
    VF_CHECK(left == 0, "descriptors", "%d descriptors are left", left);
    fs::wipe(base);
    vf::distinct(vf::fmt("%d ", how) + a[1]);
    vf::count("failed launches", how < 5);
    vf::count("children that don't read their input", how == 5);
}

// Several threads at once.
struct Launcher {
    Str path;
    uint64_t seed;
    std::set<int>* other;
    Str bad;
    long bytes = 0, children = 0;
};
static void* launchThread(void* p) {
    Launcher* l = (Launcher*) p;
    vf::Rng r(l->seed);
    for (int i = 0; i < 6 && l->bad.empty(); i++) {
        Str in = r.chance(1, 3) ? pattern('i', r.below(150000)) : vf::randBytes(r, 200);
        int code = (int) r.below(256);
        bool null = r.chance(1, 3);
        std::vector<Str> a = {"--vfchild", vf::fmt("%se4000;s%u;r;f1;x%d;", null ? "" : "f2;", r.below(3000), code), vf::fmt("%p", p)};
        Owned<Subprocess> sub = Subprocess::exec(vf::view(l->path), argViews(a), {}, null ? Subprocess::Output::openStdOutOnly() : Subprocess::Output::openSeparate(),
                                                 r.chance(1, 4) ? (in.clear(), Subprocess::Input::ignore()) : Subprocess::Input::open());
        Result res = collect(sub, in, r);
        l->children++;
        l->bytes += (long) res.out.size();
        if (res.code != code)
            l->bad = vf::fmt("exit code %d instead of %d", res.code, code);
        else if (res.out.size() < in.size() + 4 || res.out.substr(0, in.size()) != in)
            l->bad = vf::fmt("%zu bytes of output for %zu of input", res.out.size(), in.size());
        else if (!null && (res.err.size() < 4000 || res.err.substr(res.err.size() - 4000) != pattern('e', 4000)))
            l->bad = vf::fmt("%zu bytes of error output", res.err.size());
        else {
            Str s = res.out.substr(in.size() + 4);
            for (size_t at = 0; at < s.size();) {
                size_t e = s.find('\n', at), q = s.find('=', at);
                int fd = atoi(s.c_str() + at);
                Str what = s.substr(q + 1, e - q - 1);
                if (fd > 2 && !l->other->count(fd))
                    l->bad = vf::fmt("a child also has descriptor %d: ", fd) + what;
                at = e + 1;
            }
        }
    }
    return nullptr;
}
VF_WORKLOAD_SERIAL(concurrent, 16, 250) {
    signal(SIGPIPE, SIG_IGN);
    int fds = fs::openFds();
    {
        std::set<int> other = inheritable();
        Launcher l[6];
        pthread_t t[6];
        u32 n = 2 + r.below(5);
        Str path = exe();
        for (u32 i = 0; i < n; i++) {
            l[i].path = path;
            l[i].seed = r.u64();
            l[i].other = &other;
            pthread_create(&t[i], nullptr, launchThread, &l[i]);
        }
        for (u32 i = 0; i < n; i++) {
            pthread_join(t[i], nullptr);
            VF_EXPECT(l[i].bad.empty(), "concurrent", "with %u threads: %s", n, l[i].bad.c_str());
            vf::count("children of concurrent threads", l[i].children);
            vf::count("bytes from children", l[i].bytes);
        }
        vf::distinct(r.u64());
    }
    errno = 0;
    VF_CHECK(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "zombie", "a child is left");
    int left = fs::openFds() - fds;
    static int extra = 0;
    extra += left;
    VF_CHECK(extra <= 2, "descriptors", "%d descriptors are left", extra);
}

VF_MAIN()
