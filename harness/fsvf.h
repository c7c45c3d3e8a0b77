// File tree helpers that use system calls only: snapshots, removal, readers and writers.
#pragma once
#include "vf.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <unistd.h>

namespace vf {
namespace fs {

inline bool readAll(const Str& path, Str* out) {
    int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC | O_NONBLOCK);
    if (fd < 0)
        return false;
    char b[65536];
    ssize_t n;
    while ((n = ::read(fd, b, sizeof b)) > 0)
        out->append(b, (size_t) n);
    int e = errno;
    ::close(fd);
    errno = e;
    return n == 0;
}
inline bool writeAll(const Str& path, const Str& data, int flags = O_WRONLY | O_CREAT | O_TRUNC) {
    int fd = ::open(path.c_str(), flags | O_CLOEXEC, 0644);
    if (fd < 0)
        return false;
    size_t at = 0;
    while (at < data.size()) {
        ssize_t n = ::write(fd, data.data() + at, data.size() - at);
        if (n <= 0)
            break;
        at += (size_t) n;
    }
    ::close(fd);
    return at == data.size();
}
inline std::vector<Str> names(const Str& dir) {
    std::vector<Str> v;
    DIR* d = ::opendir(dir.c_str());
    if (!d)
        return v;
    while (struct dirent* e = ::readdir(d)) {
        Str n = e->d_name;
        if (n != "." && n != "..")
            v.push_back(n);
    }
    ::closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}
// rel path -> description (kind, permissions, contents or link target)
typedef std::map<Str, Str> Snap;
inline void snap(const Str& path, const Str& rel, Snap* out, bool modes = true) {
    struct stat s;
    if (::lstat(path.c_str(), &s) != 0)
        return;
    Str m = modes ? fmt("%o", s.st_mode & 07777) : Str();
    if (S_ISLNK(s.st_mode)) {
        char b[4096];
        ssize_t n = ::readlink(path.c_str(), b, sizeof b);
        (*out)[rel] = "l:" + Str(b, n > 0 ? (size_t) n : 0);
    } else if (S_ISDIR(s.st_mode)) {
        (*out)[rel] = "d" + m;
        bool closed = (s.st_mode & 0500) != 0500;
        if (closed)
            ::chmod(path.c_str(), 0700);
        for (const Str& n : names(path))
            snap(path + "/" + n, rel.empty() ? n : rel + "/" + n, out, modes);
        if (closed)
            ::chmod(path.c_str(), s.st_mode & 07777);
    } else if (S_ISREG(s.st_mode)) {
        Str c;
        bool closed = !(s.st_mode & 0400);
        if (closed)
            ::chmod(path.c_str(), 0600);
        bool ok = readAll(path, &c);
        if (closed)
            ::chmod(path.c_str(), s.st_mode & 07777);
        (*out)[rel] = "f" + m + ":" + (ok ? c : "<unreadable>");
    } else
        (*out)[rel] = "o" + m;
}
inline Snap snap(const Str& path, bool modes = true) {
    Snap s;
    snap(path, "", &s, modes);
    return s;
}
inline Str diff(const Snap& a, const Snap& b) {
    Str d;
    for (auto& x : a) {
        auto it = b.find(x.first);
        if (it == b.end())
            d += " -" + esc(x.first) + " (" + esc(x.second).substr(0, 60) + ")";
        else if (it->second != x.second)
            d += " ~" + esc(x.first) + " (" + esc(x.second).substr(0, 60) + " -> " + esc(it->second).substr(0, 60) + ")";
    }
    for (auto& x : b)
        if (!a.count(x.first))
            d += " +" + esc(x.first) + " (" + esc(x.second).substr(0, 60) + ")";
    return d;
}
// Removes a tree without following links; only below the worker's scratch folder.
inline int removeTree(const Str& path, bool force) {
    struct stat s;
    if (::lstat(path.c_str(), &s) != 0)
        return -1;
    if (!S_ISDIR(s.st_mode))
        return ::unlink(path.c_str());
    if (force)
        ::chmod(path.c_str(), 0700);
    int rc = 0;
    for (const Str& n : names(path))
        if (removeTree(path + "/" + n, force) != 0)
            rc = -1;
    return ::rmdir(path.c_str()) != 0 ? -1 : rc;
}
inline void wipe(const Str& path) {
    if (path.find(scratch() + "/") != 0)
        abort();
    removeTree(path, true);
}
// The sanitizer's memory watcher opens files of /proc at any time; those don't count.
inline int openFds() {
    int n = 0;
    for (int fd = 0; fd < 256; fd++) {
        struct statfs s;
        n += ::fcntl(fd, F_GETFD) != -1 && ::fstatfs(fd, &s) == 0 && s.f_type != 0x9fa0;
    }
    return n;
}

} // namespace fs
} // namespace vf
