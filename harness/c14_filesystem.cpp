// C14: every file system operation is applied to one tree through the library and to an identical tree through
// system calls; results, data and the two trees must agree after every step.
#include "plyvf.h"
#include "fsvf.h"
#include <limits.h>
#include <pthread.h>
using namespace ply;
using vf::Str;
namespace fs = vf::fs;

static const char* const NAMES[] = {"a", "b", "c", "d e", "\xc3\xa9", ".h", "...", "x\\y", "-", "n\nl", "C:"};
static Str randName(vf::Rng& r) {
    if (r.chance(1, 40))
        return Str(200 + r.below(120), 'L'); // around the limit of a name
    return NAMES[r.below(sizeof(NAMES) / sizeof(NAMES[0]))];
}

struct Pair { // two identical trees
    Str a, b; // each has "root" and "out"
    std::vector<Str> rels; // paths that existed when the tree was made
};
static void makeBoth(Pair& p, const Str& rel, int kind, const Str& data, int mode) {
    for (const Str& top : {p.a, p.b}) {
        Str path = top + "/" + rel;
        if (kind == 0)
            mkdir(path.c_str(), 0755);
        else if (kind == 1)
            fs::writeAll(path, data);
        else if (symlink(data.c_str(), path.c_str()) != 0) {
        }
        if (kind < 2 && mode != 0755)
            chmod(path.c_str(), mode);
    }
}
static Pair makePair(vf::Rng& r, uint64_t idx) {
    Pair p;
    Str base = vf::scratch() + vf::fmt("/t%llu", (unsigned long long) idx);
    mkdir(base.c_str(), 0755);
    p.a = base + "/a";
    p.b = base + "/b";
    mkdir(p.a.c_str(), 0755);
    mkdir(p.b.c_str(), 0755);
    // links that are moved up must not lead from one tree to the other
    for (int i = 0; i < 8; i++)
        for (Str* top : {&p.a, &p.b}) {
            *top += "/n";
            mkdir(top->c_str(), 0755);
        }
    makeBoth(p, "root", 0, "", 0755);
    makeBoth(p, "out", 0, "", 0755);
    makeBoth(p, "out/secret", 1, "secret", 0644);
    makeBoth(p, "out/sub", 0, "", 0755);
    makeBoth(p, "out/sub/kept", 1, "kept", 0644);
    std::vector<Str> dirs = {"root"};
    std::vector<std::pair<Str, int>> modes;
    for (uint32_t n = r.below(14); n > 0; n--) {
        Str rel = dirs[r.below(dirs.size())] + "/" + randName(r);
        struct stat s;
        if (lstat((p.a + "/" + rel).c_str(), &s) == 0)
            continue;
        switch (r.below(6)) {
            case 0:
            case 1:
            case 2:
                makeBoth(p, rel, 0, "", 0755);
                if (stat((p.a + "/" + rel).c_str(), &s) == 0)
                    dirs.push_back(rel);
                if (r.chance(1, 10))
                    modes.push_back({rel, (int) r.pick({0u, 0500u, 0300u, 0400u, 0100u})});
                break;
            case 3:
            case 4:
                makeBoth(p, rel, 1, r.chance(1, 6) ? Str(r.below(200000), 'z') : vf::randBytes(r, 60), r.chance(1, 10) ? (int) r.pick({0u, 0200u, 0444u}) : 0644);
                break;
            default: {
                Str up;
                for (size_t i = 0; i < rel.size(); i++)
                    up += rel[i] == '/' ? "../" : "";
                Str target = r.pick({Str("a"), Str("b"), Str("missing"), Str("."), up + "out/secret", up + "out/sub", up + "out/nothing", Str("..")});
                makeBoth(p, rel, 2, target, 0);
            }
        }
        p.rels.push_back(rel.substr(4));
    }
    for (auto& m : modes)
        for (const Str& top : {p.a, p.b})
            chmod((top + "/" + m.first).c_str(), m.second);
    return p;
}
static Str randRel(vf::Rng& r, const Pair& p) {
    Str s;
    if (!p.rels.empty() && r.chance(2, 3)) {
        s = p.rels[r.below(p.rels.size())].substr(1);
        if (r.chance(1, 3))
            s += "/" + randName(r);
    } else
        for (uint32_t n = 1 + r.below(4); n > 0; n--)
            s += (s.empty() ? "" : r.chance(1, 8) ? "//" : "/") +
                 (r.chance(1, 8) ? Str("..") : r.chance(1, 12) ? Str(".") : randName(r));
    if (r.chance(1, 25))
        s = "../" + s;
    if (r.chance(1, 8))
        s += "/";
    return s;
}
// The path with its dot components resolved as text.
static Str lexical(const Str& rel) {
    std::vector<Str> v;
    Str tok;
    for (size_t i = 0; i <= rel.size(); i++) {
        if (i < rel.size() && rel[i] != '/') {
            tok += rel[i];
            continue;
        }
        if (tok == "..") {
            if (!v.empty() && v.back() != "..")
                v.pop_back();
            else
                v.push_back(tok);
        } else if (!tok.empty() && tok != ".")
            v.push_back(tok);
        tok.clear();
    }
    Str s;
    for (auto& x : v)
        s += (s.empty() ? "" : "/") + x;
    if (s.empty())
        s = ".";
    if (!rel.empty() && rel.back() == '/')
        s += "/";
    return s;
}

// What the operation's result may be, given the errno of the reference.
static bool okResult(FSResult got, int err, std::initializer_list<std::pair<int, FSResult>> stated) {
    if (err == 0)
        return got == FSResult::OK;
    for (auto& s : stated)
        if (s.first == err)
            return got == s.second;
    return got != FSResult::OK && got != FSResult::Unchanged;
}
static int rc2err(int rc) {
    return rc == 0 ? 0 : errno;
}

struct Env {
    Pair pair;
    FileSystem* fsys;   // through which the library is called
    Owned<FileSystem> virt;
    int mode;           // 0: absolute paths, 1: relative to the working directory, 2: virtual
    Str cwd;            // before the case
    Str pa(const Str& rel) const { // as given to the library
        return mode == 0 ? pair.a + "/root/" + rel : rel;
    }
    Str kb(const Str& rel) const { // for system calls on the second tree
        return pair.b + "/root/" + (mode == 2 ? lexical(rel) : rel);
    }
    Str ka(const Str& rel) const {
        return pair.a + "/root/" + (mode == 2 ? lexical(rel) : rel);
    }
};

static bool escapes(const Env& e, const Str& rel) {
    return e.mode == 2 && lexical(rel).substr(0, 2) == ".." && (lexical(rel).size() == 2 || lexical(rel)[2] == '/');
}
// Paths whose meaning changes when resolved as text (".." after a link) are not covered.
static bool tame(const Env& e, const Str& rel) {
    if (rel.empty())
        return false; // names nothing
    Str end = rel.substr(0, rel.find_last_not_of('/') + 1);
    if (end.size() > 1 && (end.substr(end.size() - 2) == "/." || (e.mode == 2 && end.size() > 2 && end.substr(end.size() - 3) == "/..")))
        return false; // a folder by another name than its own: system calls treat those specially
    if (e.mode == 2)
        return lexical(rel)[0] != '.' || rel[0] != '.' || lexical(rel).find_first_not_of("./") != Str::npos;
    Str l = lexical(rel);
    if (l.substr(0, 5) == "../..")
        return false; // shared by both trees
    if (rel.find("..") == Str::npos)
        return true;
    auto id = [&](const Str& p) {
        Str q = p;
        while (q.size() > 1 && q.back() == '/')
            q.pop_back();
        size_t k = q.rfind('/');
        Str dir = q.substr(0, k), last = q.substr(k + 1);
        if (last == "." || last == "..")
            dir = q;
        struct stat s;
        if (stat(dir.c_str(), &s) != 0)
            return Str("none");
        return vf::fmt("%llu", (unsigned long long) s.st_ino);
    };
    // every prefix ending in ".." must mean the same both ways
    for (size_t i = 0; i <= rel.size(); i++)
        if (i == rel.size() || rel[i] == '/') {
            Str pre = rel.substr(0, i);
            if (pre.empty())
                continue;
            if (id(e.pair.b + "/root/" + pre) != id(e.pair.b + "/root/" + lexical(pre)))
                return false;
        }
    return true;
}

static const char* resName(FSResult r) {
    static const char* const n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"};
    return (unsigned) r < 7 ? n[(unsigned) r] : "?";
}

static int refMakeDirs(const Str& path) {
    struct stat s;
    Str p = path;
    while (p.size() > 1 && p.back() == '/')
        p.pop_back();
    if (stat(p.c_str(), &s) == 0)
        return S_ISDIR(s.st_mode) ? 0 : EACCES;
    for (size_t i = 1; i <= p.size(); i++)
        if (i == p.size() || p[i] == '/') {
            Str pre = p.substr(0, i);
            if (stat(pre.c_str(), &s) == 0) {
                if (!S_ISDIR(s.st_mode))
                    return EACCES;
                continue;
            }
            if (mkdir(pre.c_str(), 0755) != 0 && (errno != EEXIST || i == p.size()))
                return errno;
        }
    return 0;
}
static Str parentOf(const Str& path) {
    size_t k = path.rfind('/');
    Str d = path.substr(0, k);
    while (!d.empty() && d.back() == '/')
        d.pop_back();
    return d;
}

static void listings(vf::Rng& r, Env& e, const Str& rel) {
    Str pa = e.pa(rel), ka = e.ka(rel);
    u32 flags = r.below(4);
    bool esc = escapes(e, rel);
    DIR* d = esc ? nullptr : opendir(ka.c_str());
    int err = esc ? EXDEV : d ? 0 : errno;
    if (d)
        closedir(d);
    vf::Exact mem(pa);
    FileSystem::setLastResult(FSResult::Locked);
    std::map<Str, DirectoryEntry> got;
    {
        Directory dir = e.fsys->listDir(mem.view(), flags);
        FSResult res = e.fsys->lastResult();
        VF_CHECK(okResult(res, err, {{ENOENT, FSResult::NotFound}, {EACCES, FSResult::AccessDenied}, {EXDEV, FSResult::AccessDenied}}),
                 "list-result", "listDir of %s (errno %d): %s", vf::esc(rel).c_str(), err, resName(res));
        for (DirectoryEntry& x : dir) {
            Str n = vf::str(x.name);
            VF_CHECK(!got.count(n), "list-twice", "%s is listed twice", vf::esc(n).c_str());
            got[n].name = std::move(x.name);
            got[n].isDir = x.isDir;
            got[n].fileSize = x.fileSize;
            got[n].modificationTime = x.modificationTime;
            got[n].accessTime = x.accessTime;
        }
        if (err == 0)
            VF_CHECK(e.fsys->lastResult() == FSResult::OK, "list-end", "result after listing is %s", resName(e.fsys->lastResult()));
    }
    if (err) {
        VF_CHECK(got.empty(), "list-unlisted", "%zu entries of a directory that can't be listed", got.size());
        vf::count("failed listings");
        return;
    }
    size_t matched = 0;
    for (const Str& n : fs::names(ka)) {
        struct stat ls, s;
        bool looked = lstat((ka + "/" + n).c_str(), &ls) == 0;
        bool target = stat((ka + "/" + n).c_str(), &s) == 0;
        auto it = got.find(n);
        if (it == got.end()) {
            VF_CHECK((!looked || S_ISLNK(ls.st_mode)) && !target && flags, "list-missing", "%s of %s is not listed", vf::esc(n).c_str(), vf::esc(rel).c_str());
            continue;
        }
        matched++;
        if (looked && !S_ISLNK(ls.st_mode)) {
            VF_CHECK(it->second.isDir == S_ISDIR(ls.st_mode), "list-kind", "%s of %s is listed as the wrong kind", vf::esc(n).c_str(), vf::esc(rel).c_str());
            if (target && (flags & FileSystem::WithSizes) && S_ISREG(ls.st_mode))
                VF_CHECK(it->second.fileSize == (u64) s.st_size, "list-size", "%s: size %llu", vf::esc(n).c_str(), (unsigned long long) it->second.fileSize);
            if (target && (flags & FileSystem::WithTimes))
                VF_CHECK((s64) it->second.modificationTime == (s64) s.st_mtime && (s64) it->second.accessTime == (s64) s.st_atime, "list-time",
                         "%s: times differ", vf::esc(n).c_str());
        }
    }
    VF_CHECK(matched == got.size(), "list-extra", "%zu entries listed, %zu exist", got.size(), matched);
    vf::count("entries listed", matched);
}

static void walks(vf::Rng& r, Env& e, const Str& rel) {
    Str pa = e.pa(rel), ka = e.ka(rel);
    struct stat s;
    bool esc = escapes(e, rel);
    if (esc || stat(ka.c_str(), &s) != 0 || !S_ISDIR(s.st_mode)) {
        size_t n = 0;
        for (WalkTriple& t : e.fsys->walk(vf::view(pa)))
            n += t.dirNames.numItems() + t.files.numItems();
        VF_CHECK(n == 0, "walk-nothing", "walk of %s finds %zu entries", vf::esc(rel).c_str(), n);
        return;
    }
    // expected: a stack of directories still to visit, in the order the caller leaves them
    std::vector<Str> todo = {ka};
    bool first = true;
    u32 flags = r.below(4);
    uint64_t steps = 0;
    for (WalkTriple& t : e.fsys->walk(vf::view(pa), flags)) {
        VF_CHECK(!todo.empty(), "walk-extra", "walk of %s continues with %s", vf::esc(rel).c_str(), vf::esc(vf::str(t.dirPath)).c_str());
        Str want = todo.back();
        todo.pop_back();
        Str dp = vf::str(t.dirPath);
        if (first)
            VF_CHECK(dp == pa, "walk-top", "first directory is %s", vf::esc(dp).c_str());
        first = false;
        Str real = e.mode == 2 ? e.pair.a + "/root/" + lexical(dp) : dp;
        struct stat x, y;
        VF_CHECK((stat(want.c_str(), &y) != 0 && stat(real.c_str(), &x) != 0) ||
                     (stat(want.c_str(), &y) == 0 && stat(real.c_str(), &x) == 0 && x.st_ino == y.st_ino),
                 "walk-order", "walk visits %s instead of %s", vf::esc(dp).c_str(), vf::esc(want).c_str());
        std::set<Str> dirs, files;
        for (const Str& n : fs::names(want)) {
            if (lstat((want + "/" + n).c_str(), &x) != 0)
                continue;
            if (S_ISDIR(x.st_mode))
                dirs.insert(n);
            else if (!S_ISLNK(x.st_mode) || stat((want + "/" + n).c_str(), &y) == 0)
                files.insert(n);
        }
        std::set<Str> gotDirs, gotFiles;
        for (const String& n : t.dirNames)
            gotDirs.insert(vf::str(n));
        for (const auto& f : t.files) {
            Str n = vf::str(f.name);
            if (lstat((want + "/" + n).c_str(), &x) == 0 && S_ISLNK(x.st_mode) && stat((want + "/" + n).c_str(), &y) != 0)
                continue; // dangling links may be listed or not
            gotFiles.insert(n);
            if ((flags & FileSystem::WithSizes) && S_ISREG(x.st_mode) && access(want.c_str(), X_OK) == 0)
                VF_CHECK(f.fileSize == (u64) x.st_size, "walk-size", "%s: size %llu", vf::esc(n).c_str(), (unsigned long long) f.fileSize);
        }
        if (access(want.c_str(), X_OK) == 0) // the reference itself can't look into the others
            VF_CHECK(gotDirs == dirs && gotFiles == files, "walk-contents", "walk of %s differs in %s: %zu/%zu directories, %zu/%zu files", vf::esc(rel).c_str(),
                     vf::esc(dp).c_str(), gotDirs.size(), dirs.size(), gotFiles.size(), files.size());
        // prune and reorder
        while (t.dirNames.numItems() > 0 && r.chance(1, 6))
            t.dirNames.erase(r.below(t.dirNames.numItems()));
        if (t.dirNames.numItems() > 1 && r.chance(1, 3))
            std::swap(t.dirNames[0], t.dirNames[t.dirNames.numItems() - 1]);
        for (s32 i = (s32) t.dirNames.numItems() - 1; i >= 0; i--)
            todo.push_back(want + "/" + vf::str(t.dirNames[i]));
        vf::count("directories walked");
        if (++steps > 200)
            break;
    }
    VF_CHECK(todo.empty() || steps > 200, "walk-short", "walk of %s leaves out %s", vf::esc(rel).c_str(), vf::esc(todo.back()).c_str());
}

static void reads(vf::Rng& r, Env& e, const Str& rel) {
    Str pa = e.pa(rel), ka = e.ka(rel), want;
    bool esc = escapes(e, rel);
    int err = esc ? EXDEV : fs::readAll(ka, &want) ? 0 : errno;
    vf::Exact mem(pa);
    Str got;
    bool opened = true;
    int how = r.below(5);
    if (how == 0)
        got = vf::str(e.fsys->loadBinary(mem.view()));
    else if (how == 1) {
        auto ins = e.fsys->openStreamForRead(mem.view());
        opened = (bool) ins;
        if (ins)
            got = vf::str(ins->readRemainingContents());
    } else if (how == 2) {
        auto in = e.fsys->openPipeForRead(mem.view());
        opened = (bool) in;
        if (in) {
            VF_CHECK(err || in->getFileSize() == want.size(), "read-size", "size of %s is %llu", vf::esc(rel).c_str(), (unsigned long long) in->getFileSize());
            char b[1000];
            while (u32 n = in->readSome({b, sizeof b}))
                got.append(b, n);
        }
    } else {
        TextFormat tf = TextFormat::unixUTF8();
        if (how == 3)
            got = vf::str(e.fsys->loadText(mem.view(), tf));
        else {
            auto ins = e.fsys->openTextForRead(mem.view(), tf);
            opened = (bool) ins;
            if (ins)
                got = vf::str(ins->readRemainingContents());
        }
        // importing drops a byte order mark and carriage returns
        Str w;
        for (char c : want.substr(0, 3) == "\xef\xbb\xbf" ? want.substr(3) : want)
            if (c != '\r')
                w += c;
        want = w;
    }
    FSResult res = e.fsys->lastResult();
    VF_CHECK(okResult(res, err, {{ENOENT, FSResult::NotFound}, {EACCES, FSResult::AccessDenied}, {EXDEV, FSResult::AccessDenied}}), "read-result",
             "reading %s (errno %d): %s", vf::esc(rel).c_str(), err, resName(res));
    if (err == 0)
        VF_CHECK(got == want && opened, "read-data", "reading %s (%d) gives %zu bytes instead of %zu", vf::esc(rel).c_str(), how, got.size(), want.size());
    else
        VF_CHECK(got.empty() && (!opened || how == 0 || how == 3), "read-failed", "reading %s gives %zu bytes with errno %d", vf::esc(rel).c_str(), got.size(), err);
    vf::count(err ? "failed reads" : "reads");
}

static void step(vf::Rng& r, Env& e, bool* stop) {
    Str rel = randRel(r, e.pair);
    if (!tame(e, rel))
        return;
    Str pa = e.pa(rel), kb = e.kb(rel);
    bool esc = escapes(e, rel);
    int op = r.below(13);
    if (e.mode == 2 && (op == 1 || op == 2 || op == 7) && rel.find("..") != Str::npos && !esc)
        return; // whether folders that are left again get made is not stated
    vf::Exact mem(pa);
    auto before = vf::fs::openFds();
    FileSystem::setLastResult(FSResult::Locked);
    vf::ctx(vf::fmt("mode %d op %d ", e.mode, op) + vf::esc(pa));
    int err = 0;
    FSResult res = FSResult::OK;
    switch (op) {
        case 0: { // makeDir
            err = esc ? EXDEV : rc2err(mkdir(kb.c_str(), 0755));
            res = e.fsys->makeDir(mem.view());
            VF_CHECK(okResult(res, err, {{EEXIST, FSResult::AlreadyExists}, {EACCES, FSResult::AccessDenied}}), "makedir-result",
                     "makeDir %s (errno %d): %s", vf::esc(rel).c_str(), err, resName(res));
            break;
        }
        case 1:
        case 2: { // makeDirs
            if (esc) {
                // whether the root's own ancestors count as existing is not stated, but nothing may change
                res = e.fsys->makeDirs(mem.view());
                VF_CHECK(res != FSResult::OK, "makedirs-escape", "makeDirs %s: OK", vf::esc(rel).c_str());
                err = EXDEV;
                break;
            }
            struct stat s;
            bool was = stat(kb.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
            err = refMakeDirs(kb);
            res = e.fsys->makeDirs(mem.view());
            VF_CHECK(was        ? res == FSResult::OK || res == FSResult::AlreadyExists
                     : err == EEXIST ? res != FSResult::OK && res != FSResult::Unchanged
                                : okResult(res, err, {}) || (err == 0 && res == FSResult::AlreadyExists && lexical(rel) != rel),
                     "makedirs-result", "makeDirs %s (errno %d): %s", vf::esc(rel).c_str(), err, resName(res));
            break;
        }
        case 3: { // move
            Str rel2 = randRel(r, e.pair);
            if (!tame(e, rel2))
                return;
            vf::ctx(vf::fmt("mode %d move ", e.mode) + vf::esc(pa) + " -> " + vf::esc(rel2));
            err = esc || escapes(e, rel2) ? EXDEV : rc2err(rename(kb.c_str(), e.kb(rel2).c_str()));
            vf::Exact mem2(e.pa(rel2));
            res = e.fsys->moveFile(mem.view(), mem2.view());
            VF_CHECK(okResult(res, err, {}), "move-result", "moving %s to %s (errno %d): %s", vf::esc(rel).c_str(), vf::esc(rel2).c_str(), err, resName(res));
            break;
        }
        case 4: { // delete
            err = esc ? EXDEV : rc2err(unlink(kb.c_str()));
            res = e.fsys->deleteFile(mem.view());
            VF_CHECK(okResult(res, err, {}), "delete-result", "deleting %s (errno %d): %s", vf::esc(rel).c_str(), err, resName(res));
            break;
        }
        case 5: { // remove a tree
            if (!r.chance(1, 3))
                return;
            struct stat s;
            Str p = kb;
            while (p.size() > 1 && p.back() == '/')
                p.pop_back();
            bool link = lstat(p.c_str(), &s) == 0 && S_ISLNK(s.st_mode);
            Str l = lexical(rel);
            bool above = l == "." || l == "./" || l.substr(0, 2) == "..";
            if (link || (above && e.mode != 2) || (above && !esc))
                return;
            bool isDir = !esc && stat(kb.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
            fs::Snap old = fs::snap(e.pair.a);
            char real[PATH_MAX], top[PATH_MAX];
            Str pre = isDir && realpath(e.ka(rel).c_str(), real) && realpath(e.pair.a.c_str(), top) && strlen(real) > strlen(top)
                          ? Str(real + strlen(top) + 1)
                          : Str("root/") + lexical(rel);
            while (pre.back() == '/')
                pre.pop_back();
            res = e.fsys->removeDirTree(mem.view());
            if (!isDir) {
                VF_CHECK(res != FSResult::OK, "rmtree-result", "removing %s: OK", vf::esc(rel).c_str());
                err = EXDEV;
                break;
            }
            bool complete = fs::removeTree(p, false) == 0;
            VF_CHECK((res == FSResult::OK) == complete, "rmtree-result", "removing the tree %s (possible: %d): %s", vf::esc(rel).c_str(), complete,
                     resName(res));
            if (!complete) { // how much of it went is unspecified, but only parts of it may have
                fs::Snap now = fs::snap(e.pair.a);
                for (auto& x : old)
                    VF_CHECK(now.count(x.first) || x.first.substr(0, pre.size() + 1) == pre + "/" || x.first == pre, "rmtree-beyond",
                             "removing %s also removes %s", vf::esc(rel).c_str(), vf::esc(x.first).c_str());
                *stop = true;
                vf::count("trees that could not be removed completely");
                return;
            }
            vf::count("trees removed");
            break;
        }
        case 6: { // write
            Str data = vf::randBytes(r, 100);
            if (r.chance(1, 10))
                data = Str(r.below(300000), 'q');
            if (esc)
                err = EXDEV;
            else {
                int fd = open(kb.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
                err = fd < 0 ? errno : 0;
                if (fd >= 0) {
                    if (write(fd, data.data(), data.size()) != (ssize_t) data.size())
                        abort();
                    close(fd);
                }
            }
            bool opened;
            if (r.chance(1, 2)) {
                auto outs = e.fsys->openStreamForWrite(mem.view());
                res = e.fsys->lastResult();
                opened = (bool) outs;
                if (outs) {
                    size_t k = data.size() ? r.below((uint32_t) data.size()) : 0;
                    *outs << vf::view(data.substr(0, k));
                    if (r.chance(1, 3))
                        outs->flush();
                    *outs << vf::view(data.substr(k));
                }
            } else {
                auto out = e.fsys->openPipeForWrite(mem.view());
                res = e.fsys->lastResult();
                opened = (bool) out;
                if (out)
                    VF_CHECK(out->write(vf::view(data)), "write-failed", "writing %s fails", vf::esc(rel).c_str());
            }
            VF_CHECK(opened == (err == 0) && okResult(res, err, {{ENOENT, FSResult::NotFound}, {EACCES, FSResult::AccessDenied}, {EXDEV, FSResult::AccessDenied}}),
                     "write-result", "opening %s for writing (errno %d): %s", vf::esc(rel).c_str(), err, resName(res));
            break;
        }
        case 7: { // save if different
            Str old, data = vf::randOver(r, "ab", 2);
            if (r.chance(1, 3) && !esc)
                fs::readAll(kb, &data);
            err = esc ? EXDEV : fs::readAll(kb, &old) ? 0 : errno;
            FSResult want = FSResult::OK;
            bool failed = false;
            if (err == 0 && old == data)
                want = FSResult::Unchanged;
            else if (err != 0 && err != ENOENT && err != ENOTDIR)
                failed = true;
            else {
                int rc = refMakeDirs(parentOf(kb));
                Str tmp = parentOf(kb) + "/.reference-temporary";
                if (rc != 0 || rel.back() == '/')
                    failed = true;
                else if (!fs::writeAll(tmp, data))
                    failed = true;
                else if (rename(tmp.c_str(), kb.c_str()) != 0) {
                    failed = true;
                    unlink(tmp.c_str());
                }
            }
            res = e.fsys->makeDirsAndSaveBinaryIfDifferent(mem.view(), vf::view(data));
            VF_CHECK(failed ? res != FSResult::OK && res != FSResult::Unchanged : res == want, "save-result", "saving %s (errno %d): %s", vf::esc(rel).c_str(),
                     err, resName(res));
            VF_CHECK(e.fsys->lastResult() == res, "save-last", "result %s, last result %s", resName(res), resName(e.fsys->lastResult()));
            if (rel.back() == '/') {
                *stop = true; // a folder may or may not have been made for it
                return;
            }
            err = failed ? EXDEV : 0;
            break;
        }
        case 8: { // exists
            struct stat s;
            ExistsResult want = esc || stat(kb.c_str(), &s) != 0 ? ExistsResult::NotFound
                                : S_ISDIR(s.st_mode)             ? ExistsResult::Directory
                                                                 : ExistsResult::File;
            ExistsResult got = e.fsys->exists(mem.view());
            VF_CHECK(got == want && e.fsys->isDir(mem.view()) == (want == ExistsResult::Directory), "exists", "exists(%s) = %d, expected %d",
                     vf::esc(rel).c_str(), (int) got, (int) want);
            VF_CHECK(e.fsys->lastResult() == FSResult::Locked, "exists-last", "exists changes the last result to %s", resName(e.fsys->lastResult()));
            res = FSResult::Locked;
            break;
        }
        case 9: { // status
            struct stat s;
            err = esc ? EXDEV : rc2err(stat(e.ka(rel).c_str(), &s));
            FileStatus st = e.fsys->getFileStatus(mem.view());
            res = e.fsys->lastResult();
            VF_CHECK(okResult(res, err, {{ENOENT, FSResult::NotFound}}) && st.result == res, "status-result", "status of %s (errno %d): %s, %s",
                     vf::esc(rel).c_str(), err, resName(res), resName(st.result));
            if (!err) {
                VF_CHECK(S_ISDIR(s.st_mode) || st.fileSize == (u64) s.st_size, "status-size", "size of %s is %llu", vf::esc(rel).c_str(),
                         (unsigned long long) st.fileSize);
                VF_CHECK((s64) st.modificationTime == (s64) s.st_mtime && (s64) st.accessTime == (s64) s.st_atime, "status-time", "times of %s",
                         vf::esc(rel).c_str());
            }
            break;
        }
        case 10:
            listings(r, e, rel);
            res = e.fsys->lastResult();
            break;
        case 11:
            if (r.chance(1, 2))
                walks(r, e, rel);
            res = e.fsys->lastResult();
            break;
        case 12:
            reads(r, e, rel);
            res = e.fsys->lastResult();
            break;
    }
    if (vf::failed())
        return;
    VF_CHECK(e.fsys->lastResult() == res, "last-result", "operation %d returns %s but the last result is %s", op, resName(res),
             resName(e.fsys->lastResult()));
    int left = vf::fs::openFds() - before;
    VF_CHECK(left == 0, "descriptors", "operation %d on %s leaves %d descriptors", op, vf::esc(rel).c_str(), left);
    if (op <= 7 || r.chance(1, 10)) {
        fs::Snap a = fs::snap(e.pair.a), b = fs::snap(e.pair.b);
        VF_CHECK(a == b, vf::fmt("tree-op%d", op), "after operation %d on %s:%s", op, vf::esc(rel).c_str(), fs::diff(b, a).substr(0, 600).c_str());
        vf::count("trees compared");
        vf::distinct(vf::hashStr(vf::fmt("%d %d %d ", e.mode, op, err) + rel) ^ b.size());
    }
    vf::count(err ? "operations that fail" : "operations that succeed");
}

VF_WORKLOAD(history, 1600, 40000) {
    static bool warm = false;
    size_t live = warm ? vf::liveBytes() : 0;
    warm = true;
    {
        Env e;
        e.pair = makePair(r, idx);
        e.mode = r.below(3);
        e.fsys = FileSystem::native();
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd))
            abort();
        if (e.mode == 2) {
            e.virt = FileSystem::native()->createVirtual(vf::view(e.pair.a + "/root"));
            e.fsys = e.virt;
        } else if (e.mode == 1) {
            FSResult res = FileSystem::native()->setWorkingDirectory(vf::view(e.pair.a + "/root"));
            VF_CHECK(res == FSResult::OK, "chdir", "changing to an existing folder: %s", resName(res));
            Str now = vf::str(FileSystem::native()->getWorkingDirectory());
            VF_CHECK(now == e.pair.a + "/root" && e.fsys->lastResult() == FSResult::OK, "cwd", "working directory is %s", vf::esc(now).c_str());
        }
        bool stop = false;
        for (int i = 0; i < 25 && !stop && !vf::failed(); i++)
            step(r, e, &stop);
        if (chdir(cwd) != 0)
            abort();
    }
    vf::fs::wipe(vf::scratch() + vf::fmt("/t%llu", (unsigned long long) idx));
    VF_CHECK(vf::failed() || vf::liveBytes() == live || live == 0, "leak", "the operations of a case leave %zd bytes allocated", (ssize_t)(vf::liveBytes() - live));
}

VF_WORKLOAD(working_dir, 60, 600) {
    FileSystem* f = FileSystem::native();
    char start[4096];
    if (!getcwd(start, sizeof start))
        abort();
    Str base = vf::scratch() + vf::fmt("/w%llu", (unsigned long long) idx);
    mkdir(base.c_str(), 0755);
    Str here = base;
    if (chdir(base.c_str()) != 0)
        abort();
    // paths longer than PATH_MAX are reached one component at a time
    uint32_t depth = 1 + r.below(24), len = 1 + r.below(250);
    for (uint32_t i = 0; i < depth; i++) {
        Str n(len, (char) ('a' + r.below(26)));
        mkdir(n.c_str(), 0755);
        FSResult res = f->setWorkingDirectory(vf::view(n));
        VF_CHECK(res == FSResult::OK && f->lastResult() == res, "chdir", "entering a folder: %s", resName(res));
        here += "/" + n;
        Str got = vf::str(f->getWorkingDirectory());
        VF_CHECK((got == here && f->lastResult() == FSResult::OK) || (got.empty() && here.size() >= 4096 && f->lastResult() != FSResult::OK), "cwd",
                 "working directory of %zu bytes reads as %zu bytes (%s)", here.size(), got.size(), resName(f->lastResult()));
        vf::maxOf("longest working directory", here.size());
    }
    fs::writeAll("file", "x");
    VF_CHECK(f->setWorkingDirectory("nothing") == FSResult::NotFound, "chdir-missing", "%s", resName(f->lastResult()));
    VF_CHECK(f->setWorkingDirectory("file") != FSResult::OK, "chdir-file", "OK");
    mkdir("closed", 0);
    if (geteuid() != 0)
        VF_CHECK(f->setWorkingDirectory("closed") != FSResult::OK, "chdir-closed", "OK");
    Str got = vf::str(f->getWorkingDirectory());
    VF_CHECK(got == here || here.size() >= 4096, "chdir-failed", "a failed change moved to %s", vf::esc(got).c_str());
    // a working directory that is deleted
    mkdir("gone", 0755);
    f->setWorkingDirectory("gone");
    if (rmdir("../gone") == 0) {
        got = vf::str(f->getWorkingDirectory());
        VF_CHECK(f->lastResult() != FSResult::OK || !got.empty(), "cwd-gone", "a deleted working directory reads as nothing, with OK");
        size_t n = 0;
        for (DirectoryEntry& x : f->listDir("."))
            n += x.name.numBytes > 0;
        VF_CHECK(n == 0, "list-gone", "entries in a deleted folder");
        VF_CHECK(f->makeDir("sub") != FSResult::OK, "makedir-gone", "OK");
    }
    if (chdir(start) != 0)
        abort();
    vf::fs::wipe(base);
    vf::distinct(vf::fmt("%u %u", depth, len));
}

// The last result belongs to the thread.
struct Job {
    Str dir;
    uint64_t seed;
    int bad = 0;
};
static void* resultThread(void* p) {
    Job* j = (Job*) p;
    vf::Rng r(j->seed);
    FileSystem* f = FileSystem::native();
    for (int i = 0; i < 300; i++) {
        FSResult want;
        Str d = j->dir + vf::fmt("/%d", i);
        switch (r.below(4)) {
            case 0:
                f->makeDir(vf::view(d));
                want = FSResult::OK;
                break;
            case 1:
                f->loadBinary(vf::view(d + "missing"));
                want = FSResult::NotFound;
                break;
            case 2:
                f->makeDir(vf::view(j->dir));
                want = FSResult::AlreadyExists;
                break;
            default:
                f->makeDirsAndSaveBinaryIfDifferent(vf::view(j->dir + "/same"), "same");
                f->makeDirsAndSaveBinaryIfDifferent(vf::view(j->dir + "/same"), "same");
                want = FSResult::Unchanged;
        }
        for (uint32_t k = r.below(3); k > 0; k--)
            sched_yield();
        if (f->lastResult() != want)
            j->bad++;
        Str s = vf::str(f->loadBinary(vf::view(j->dir + "/same")));
        if (!s.empty() && s != "same")
            j->bad++;
    }
    return nullptr;
}
VF_WORKLOAD_SERIAL(threads, 6, 60) {
    Job jobs[6];
    pthread_t t[6];
    for (int i = 0; i < 6; i++) {
        jobs[i].dir = vf::scratch() + vf::fmt("/th%llu_%d", (unsigned long long) idx, i);
        mkdir(jobs[i].dir.c_str(), 0755);
        jobs[i].seed = r.u64();
        pthread_create(&t[i], nullptr, resultThread, &jobs[i]);
    }
    int bad = 0;
    for (int i = 0; i < 6; i++) {
        pthread_join(t[i], nullptr);
        bad += jobs[i].bad;
        vf::fs::wipe(jobs[i].dir);
    }
    VF_CHECK(bad == 0, "threads", "%d results differ from the calling thread's own last operation", bad);
    vf::distinct(r.u64());
    vf::count("operations from several threads", 6 * 300);
}

// System calls that fail for any other reason.
static int failKind = 0, failAfter = 0, failErrno = 0, failHits = 0;
static bool hit(int kind) {
    if (failKind != kind || failAfter-- > 0)
        return false;
    failHits++;
    errno = failErrno;
    failAfter = 0;
    return true;
}
extern "C" {
#define WRAP(kind, name, ret, params, args, bad) \
    ret __real_##name params; \
    ret __wrap_##name params; \
    ret __wrap_##name params { \
        return hit(kind) ? bad : __real_##name args; \
    }
WRAP(1, mkdir, int, (const char* p, mode_t m), (p, m), -1)
WRAP(2, rename, int, (const char* a, const char* b), (a, b), -1)
WRAP(3, unlink, int, (const char* p), (p), -1)
WRAP(4, rmdir, int, (const char* p), (p), -1)
WRAP(5, stat, int, (const char* p, struct stat* s), (p, s), -1)
WRAP(6, opendir, DIR*, (const char* p), (p), nullptr)
WRAP(7, readdir, struct dirent*, (DIR * d), (d), nullptr)
WRAP(8, chdir, int, (const char* p), (p), -1)
WRAP(9, getcwd, char*, (char* b, size_t n), (b, n), nullptr)
WRAP(10, read, ssize_t, (int fd, void* p, size_t n), (fd, p, n), -1)
WRAP(11, write, ssize_t, (int fd, const void* p, size_t n), (fd, p, n), -1)
int __real_open(const char* p, int flags, ...);
int __wrap_open(const char* p, int flags, ...);
int __wrap_open(const char* p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return hit(12) ? -1 : __real_open(p, flags, mode);
}
}

VF_WORKLOAD(faults, 3000, 60000) {
    Str base = vf::scratch() + vf::fmt("/f%llu", (unsigned long long) idx);
    mkdir(base.c_str(), 0755);
    mkdir((base + "/d").c_str(), 0755);
    mkdir((base + "/d/e").c_str(), 0755);
    fs::writeAll(base + "/d/x", "xx");
    fs::writeAll(base + "/d/e/y", "yy");
    fs::Snap before = fs::snap(base);
    FileSystem* f = FileSystem::native();
    int errs[] = {EIO, ENOMEM, EMFILE, ENFILE, ENOSPC, EDQUOT, ELOOP, ENAMETOOLONG, EROFS, EPERM, EBUSY, EACCES, ENOENT, ENOTDIR, EOVERFLOW, ESTALE};
    int kind = 1 + r.below(12), after = r.below(3), code = errs[r.below(16)];
    if (kind == 9 && code == ENOMEM)
        code = EACCES;
    failHits = 0;
    int fds = fs::openFds();
    FSResult res = FSResult::Locked;
    bool known = true, mayChange = false;
    Str d = base + "/d", n = base + "/n/m", what;
    int op = r.below(12);
    vf::ctx(vf::fmt("operation %d with failing call %d at %d: errno %d", op, kind, after, code));
    failErrno = code;
    failAfter = after;
    failKind = kind;
    switch (op) {
        case 0:
            res = f->makeDir(vf::view(base + "/new"));
            break;
        case 1:
            res = f->makeDirs(vf::view(n));
            mayChange = true;
            known = code != ENOENT && code != ENOTDIR && kind == 1;
            break;
        case 2:
            res = f->moveFile(vf::view(d + "/x"), vf::view(base + "/z"));
            break;
        case 3:
            res = f->deleteFile(vf::view(d + "/x"));
            break;
        case 4:
            res = f->removeDirTree(vf::view(d));
            mayChange = true;
            known = kind == 3 || kind == 4;
            break;
        case 5:
            res = f->getFileStatus(vf::view(d)).result;
            break;
        case 6: {
            bool got = (bool) f->openPipeForRead(vf::view(d + "/x"));
            res = f->lastResult();
            known = kind == 12;
            VF_EXPECT(got == (res == FSResult::OK), "fault-pipe", "a pipe and a result that disagree");
            break;
        }
        case 7: {
            auto out = f->openPipeForWrite(vf::view(base + "/w"));
            res = f->lastResult();
            known = kind == 12;
            VF_EXPECT((bool) out == (res == FSResult::OK), "fault-pipe", "a pipe and a result that disagree");
            if (out && !out->write("ww"))
                res = FSResult::Unknown, known = true;
            out.clear();
            mayChange = kind == 11;
            break;
        }
        case 8: {
            Directory dir = f->listDir(vf::view(d));
            res = f->lastResult();
            for (DirectoryEntry& x : dir)
                (void) x;
            if (f->lastResult() != FSResult::OK)
                res = f->lastResult();
            known = kind == 6 || kind == 7;
            break;
        }
        case 9:
            for (WalkTriple& t : f->walk(vf::view(base)))
                (void) t;
            known = false;
            break;
        case 10:
            res = f->makeDirsAndSaveBinaryIfDifferent(vf::view(base + "/n/s"), "ss");
            mayChange = true;
            known = kind == 11 || kind == 2 || (kind == 1 && code != ENOENT && code != ENOTDIR);
            break;
        default: {
            Str got = vf::str(f->loadBinary(vf::view(d + "/x")));
            VF_EXPECT(got == "xx" || (failHits && Str("xx").find(got) == 0), "fault-load", "loading gives %s", vf::esc(got).c_str());
            known = false;
        }
    }
    failKind = 0;
    if (failHits && known)
        VF_EXPECT(res != FSResult::OK && res != FSResult::Unchanged, vf::fmt("fault-result-%d-%d", op, kind),
                  "operation %d succeeds although system call %d failed with errno %d", op, kind, code);
    if (failHits && known && !mayChange) {
        fs::Snap now = fs::snap(base);
        VF_EXPECT(now == before, "fault-tree", "operation %d with failing call %d:%s", op, kind, fs::diff(before, now).c_str());
    }
    int left = fs::openFds() - fds;
    VF_EXPECT(left == 0, "descriptors", "operation %d with failing call %d (errno %d) leaves %d descriptors", op, kind, code, left);
    vf::count("operations with an injected failure", failHits ? 1 : 0);
    vf::fs::wipe(base);
    vf::distinct(vf::fmt("%d %d %d %d", op, kind, after, code));
}

VF_MAIN()
