// Runs the command-line tool as a user does: a process with arguments, in a scratch workspace.
#pragma once
#include "fsvf.h"
#include <sys/wait.h>
#include <time.h>

namespace vf {
namespace tool {

inline Str envOr(const char* n) {
    const char* v = getenv(n);
    if (!v) {
        fprintf(stderr, "%s is not set\n", n);
        _exit(98);
    }
    return v;
}
inline void mkdirs(const Str& path) {
    for (size_t i = 1; i <= path.size(); i++)
        if (i == path.size() || path[i] == '/')
            ::mkdir(path.substr(0, i).c_str(), 0755);
}
inline void put(const Str& path, const Str& text) {
    mkdirs(path.substr(0, path.rfind('/')));
    fs::writeAll(path, text);
}

struct Result {
    int code = -1; // exit code
    int sig = 0;
    bool hung = false;
    Str out, err;
    Str all() const {
        return "exit " + std::to_string(code) + (sig ? " signal " + std::to_string(sig) : Str()) + " out=" + esc(out).substr(0, 700) +
               " err=" + esc(err).substr(0, 700);
    }
    bool crashed() const {
        return sig || hung || code == 99 || code == 66 || err.find("Sanitizer") != Str::npos;
    }
};

// A library that makes programs see the entries of each folder in another order.
inline Str shuffleLib() {
    static Str path;
    if (!path.empty())
        return path;
    Str src = scratch() + "/shuffle.c";
    put(src,
        "#define _GNU_SOURCE\n#include <dirent.h>\n#include <dlfcn.h>\n#include <stdlib.h>\n#include <string.h>\n"
        "typedef struct { DIR* d; int n, at; struct dirent* e[4096]; } T;\n"
        "static T* tab[64];\n"
        "static struct dirent* next(DIR* d) {\n"
        "    static struct dirent* (*real)(DIR*); if (!real) real = dlsym(RTLD_NEXT, \"readdir\");\n"
        "    T* t = 0; int f = -1;\n"
        "    for (int i = 0; i < 64; i++) { if (tab[i] && tab[i]->d == d) t = tab[i]; else if (!tab[i] && f < 0) f = i; }\n"
        "    if (!t) {\n"
        "        if (f < 0) return real(d);\n"
        "        t = tab[f] = calloc(1, sizeof(T)); t->d = d;\n"
        "        struct dirent* e;\n"
        "        while (t->n < 4096 && (e = real(d))) { t->e[t->n] = calloc(1, sizeof(struct dirent)); memcpy(t->e[t->n++], e, e->d_reclen); }\n"
        "        unsigned s = getenv(\"VF_SHUFFLE\") ? (unsigned) atoi(getenv(\"VF_SHUFFLE\")) : 1;\n"
        "        for (int i = t->n; i > 1; i--) { s = s * 1103515245u + 12345u; int j = (int) ((s >> 16) % (unsigned) i); e = t->e[j]; t->e[j] = t->e[i - 1]; t->e[i - 1] = e; }\n"
        "    }\n"
        "    return t->at < t->n ? t->e[t->at++] : 0;\n"
        "}\n"
        "struct dirent* readdir(DIR* d) { return next(d); }\n"
        "struct dirent64* readdir64(DIR* d) { return (struct dirent64*) next(d); }\n"
        "int closedir(DIR* d) {\n"
        "    static int (*real)(DIR*); if (!real) real = dlsym(RTLD_NEXT, \"closedir\");\n"
        "    for (int i = 0; i < 64; i++) if (tab[i] && tab[i]->d == d) { for (int k = 0; k < tab[i]->n; k++) free(tab[i]->e[k]); free(tab[i]); tab[i] = 0; }\n"
        "    return real(d);\n"
        "}\n");
    Str so = scratch() + "/shuffle.so";
    if (::system(("clang -w -O1 -shared -fPIC -o " + so + " " + src + " -ldl").c_str()) != 0) {
        fprintf(stderr, "can't build the library that shuffles folders\n");
        _exit(98);
    }
    path = so;
    return path;
}

struct Workspace {
    Str outer, dir; // dir is the workspace, inside outer
    std::vector<Str> extraEnv;
    Workspace(const Str& name) {
        outer = scratch() + "/" + name;
        fs::wipe(outer);
        dir = outer + "/ws";
        mkdirs(dir + "/repos/plywood");
        Str tree = envOr("VF_TREE");
        // A link is not taken for a repo's folder, so the real modules are not part of the workspace.
        if (::symlink((tree + "/src").c_str(), (dir + "/repos/plywood/src").c_str()) != 0)
            abort();
        if (::symlink((tree + "/scripts").c_str(), (dir + "/repos/plywood/scripts").c_str()) != 0)
            abort();
        Str cfg;
        fs::readAll(envOr("VF_CFG") + "/ply-platform/Config.h", &cfg);
        put(outer + "/bf/codegen/ply-platform/ply-platform/Config.h", "#include <utility>\n" + cfg);
        put(dir + "/workspace-settings.pylon", "{\n}\n");
        put(outer + "/sentinel/info.pylon", "{\"solutionName\": \"sentinel\"}\n");
        put(outer + "/sentinel/deep/file", "keep me\n");
    }
    ~Workspace() {
        fs::wipe(outer);
    }
    Result run(const std::vector<Str>& args, int limitS = 120) const {
        Result res;
        std::vector<Str> env{"VF_WORKSPACE=" + dir + "/", "VF_BUILDFOLDER=" + outer + "/bf/", "CXX=clang++", "CC=clang", "HOME=" + outer,
                             "PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C.UTF-8", "TZ=UTC", "TMPDIR=" + outer, "MAKEFLAGS=-j1",
                             "ASAN_OPTIONS=detect_leaks=0:exitcode=99:handle_abort=1:handle_sigill=1:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:"
                             "hard_rss_limit_mb=3000",
                             "UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1"};
        env.insert(env.end(), extraEnv.begin(), extraEnv.end());
        Str exe = envOr("VF_PLYTOOL");
        std::vector<char*> av{(char*) exe.c_str()}, ev;
        for (const Str& a : args)
            av.push_back((char*) a.c_str());
        av.push_back(nullptr);
        for (const Str& e : env)
            ev.push_back((char*) e.c_str());
        ev.push_back(nullptr);
        Str of = outer + "/.out", ef = outer + "/.err";
        pid_t pid = ::fork();
        if (pid == 0) {
            ::setpgid(0, 0);
            int n = ::open("/dev/null", O_RDONLY), o = ::open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644),
                e = ::open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            ::dup2(n, 0);
            ::dup2(o, 1);
            ::dup2(e, 2);
            if (::chdir(dir.c_str()) != 0)
                _exit(97);
            ::execve(exe.c_str(), av.data(), ev.data());
            _exit(97);
        }
        int st = 0;
        for (long ms = 0;; ) {
            pid_t p = ::waitpid(pid, &st, WNOHANG);
            if (p == pid)
                break;
            if (ms > limitS * 1000L) {
                ::kill(-pid, SIGKILL);
                ::waitpid(pid, &st, 0);
                res.hung = true;
                break;
            }
            struct timespec ts {0, 1000000};
            ::nanosleep(&ts, nullptr);
            ms++;
            if (ms % 500 == 0)
                beat();
        }
        ::kill(-pid, SIGKILL);
        if (WIFEXITED(st))
            res.code = WEXITSTATUS(st);
        else
            res.sig = WTERMSIG(st);
        fs::readAll(of, &res.out);
        fs::readAll(ef, &res.err);
        ::unlink(of.c_str());
        ::unlink(ef.c_str());
        if (res.code == 97) {
            fprintf(stderr, "can't run the tool\n");
            _exit(98);
        }
        return res;
    }
    // What commands may not touch, or may only touch as they say they do.
    fs::Snap everything() const {
        fs::Snap s = fs::snap(outer), t;
        for (auto& x : s) {
            const Str& p = x.first;
            if (p.find("/ws/data/build/bootstrap") != Str::npos || p.find("ws/data/build/bootstrap") == 0)
                continue;
            t.insert(x);
        }
        return t;
    }
};

inline Str joinArgs(const std::vector<Str>& a) {
    Str s;
    for (auto& x : a)
        s += (s.empty() ? "" : " ") + (x.empty() ? Str("''") : esc(x));
    return s;
}
inline std::vector<Str> lines(const Str& text) {
    std::vector<Str> v;
    size_t at = 0;
    while (at < text.size()) {
        size_t e = text.find('\n', at);
        if (e == Str::npos)
            e = text.size();
        v.push_back(text.substr(at, e - at));
        at = e + 1;
    }
    return v;
}
// The entries of a listing: its lines indented by four spaces.
inline std::vector<Str> entries(const Str& text) {
    std::vector<Str> v;
    for (const Str& l : lines(text))
        if (l.compare(0, 4, "    ") == 0)
            v.push_back(l.substr(4));
    return v;
}

} // namespace tool
} // namespace vf
