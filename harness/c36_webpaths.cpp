// C36: handlers that serve files. A scratch tree has files inside and outside the served folders; every outside file holds a marker.
// Monitors compare each response with a model over the requested path and check that no marker ever comes back.
#include "plyvf.h"
#include "fsvf.h"
#include <web-common/FetchFromFileSystem.h>
#include <web-common/SourceCode.h>
#include <ply-web-serve-docs/DocServer.h>
#include <map>
#include <thread>
#include <atomic>
#include <sys/stat.h>
#include <fcntl.h>

using namespace ply;
using namespace vf;

namespace {

const char* const Marker = "OUTSIDE-THE-ROOT";

struct Capture : web::ResponseIface {
    MemOutStream mout;
    u32 began = 0, ended = 0;
    web::ResponseCode code = web::ResponseCode::Unknown;
    OutStream* beginResponseHeader(web::ResponseCode c) override {
        began++;
        code = c;
        return &mout;
    }
    void endResponseHeader() override {
        ended++;
    }
    Str header, body;
    bool finish() {
        Str all = str(mout.moveToString());
        size_t at = all.find("\r\n\r\n");
        if (began != 1 || ended != 1 || at == Str::npos)
            return false;
        header = all.substr(0, at + 2);
        body = all.substr(at + 4);
        return true;
    }
};

struct Tree {
    Str base, root; // the folder above, and the served one
    std::map<Str, Str> files; // relative to root, with forward slashes
    std::vector<Str> dirs;
    std::vector<Str> words; // components that requests are made of

    void add(const Str& rel, const Str& data) {
        put(root + "/" + rel, data);
        files[rel] = data;
    }
    static void put(const Str& path, const Str& data) {
        for (size_t i = 1; i < path.size(); i++) {
            if (path[i] == '/')
                mkdir(path.substr(0, i).c_str(), 0755);
        }
        fs::writeAll(path, data);
    }
};

Str randomText(vf::Rng& r, u32 maxLines) {
    Str s;
    for (u32 n = 1 + r.below(maxLines); n > 0; n--)
        s += (r.chance(1, 6) ? Str() : r.chance(1, 3) ? randOver(r, "a<>&\" \t'", 40) : randUtf8(r, 20));
    Str o;
    for (char c : s)
        o += c == '\r' || c == 0 || c == '\n' ? ' ' : c;
    // lines
    for (size_t i = 0; i < o.size(); i++) {
        if (o[i] == ' ' && r.chance(1, 2))
            o[i] = '\n';
    }
    return o.empty() || (unsigned char) o[0] >= 0x80 ? "x" + o : o;
}

const char* const exts[][2] = {{".woff2", "font/woff2"}, {".woff", "font/woff"}, {".ttf", "font/ttf"}, {".eot", "application/vnd.ms-fontobject"},
                               {".png", "image/png"}, {".css", "text/css"}, {".svg", "image/svg+xml"}, {".js", "text/javascript"}};

Tree& tree(vf::Rng& r) {
    static Tree t;
    if (!t.base.empty())
        return t;
    t.base = scratch() + vf::fmt("/web%d", (int) getpid());
    t.root = t.base + "/root";
    vf::Rng q(12345);
    std::vector<Str> stems = {"a", "b.min", "deep/c", "deep/d/e", "sp ace", ".hid", "..dots", "d..", "caf\xc3\xa9", "-", "deep/a", "%2e%2e", "x;y", "deep/..."};
    u32 i = 0;
    for (auto& stem : stems) {
        t.add(stem + exts[i % 8][0], randBytes(q, 3000));
        i++;
    }
    t.add("noext", "no extension");
    t.add("other.txt", "text");
    t.add("UPPER.CSS", "upper");
    t.add("big.css", Str(200000, 'B'));
    t.add("empty.js", "");
    t.add("text/one.cpp", randomText(q, 60));
    t.add("text/two.h", randomText(q, 10) + "\n");
    t.add("text/blank", "\n\n\nx\n");
    t.add("text/long.txt", Str(10000, 'l') + "\n" + Str(5000, '<'));
    t.dirs = {"", "deep", "deep/d", "text"};
    // outside
    for (auto& p : std::vector<Str>{"a.css", "root.css", "rootother/a.css", "deep/c.png", "other.txt", "noext", "b.min.woff", "secret/key.js", "text/one.cpp", "pages.html", "index.html"})
        Tree::put(t.base + "/" + p, Str(Marker) + " " + p);
    t.words = {"a.woff2", "a.css", "b.min.woff", "deep", "c.ttf", "c.png", "d", "e.eot", "sp ace.png", ".hid.css", "..dots.svg", "d...js", "caf\xc3\xa9.woff2", "-.woff", "a.png", "%2e%2e", "%2e%2e.css", "x;y.png",
               "....css", "noext", "other.txt", "UPPER.CSS", "big.css", "empty.js", "text", "one.cpp", "two.h", "blank", "long.txt", "root", "rootother", "root.css", "secret", "key.js", ".css", "css", "nothing.css", "..css", "...", "~", "C:", "\\", "..\\", "..\\a.css"};
    (void) r;
    return t;
}

// What a request path means
struct Meaning {
    bool escapes = false;
    Str rel, last; // normalized path, last component as written
};
Meaning meaning(const Str& path) {
    Meaning m;
    std::vector<Str> comps;
    Str c;
    for (char ch : path + "/") {
        if (ch != '/') {
            c += ch;
            continue;
        }
        if (c == "..") {
            if (comps.empty())
                m.escapes = true;
            else
                comps.pop_back();
        } else if (!c.empty() && c != ".")
            comps.push_back(c);
        c.clear();
    }
    for (auto& k : comps)
        m.rel += (m.rel.empty() ? "" : "/") + k;
    size_t slash = path.rfind('/');
    m.last = slash == Str::npos ? path : path.substr(slash + 1);
    return m;
}

Str requestPath(vf::Rng& r, Tree& t) {
    Str s;
    u32 k = r.below(10);
    if (k < 3) { // a file, with detours
        auto it = t.files.begin();
        std::advance(it, r.below((u32) t.files.size()));
        for (char c : it->first) {
            s += c;
            if (c == '/') {
                while (r.chance(1, 4))
                    s += r.pick(std::vector<Str>{"/", "./", "x/../", "deep/../", "//"});
            }
        }
        if (r.chance(1, 6))
            s = r.pick(std::vector<Str>{"deep/../", "./", "../root/", "../", "x/../../root/", "deep/d/../../"}) + s;
    } else if (k < 5) { // an outside file
        Str up;
        for (u32 n = r.below(4); n > 0; n--)
            up += r.pick(std::vector<Str>{"deep/", "./", "text/../", "/"});
        for (u32 n = r.below(4); n > 0; n--)
            up += "../";
        s = up + r.pick(std::vector<Str>{"a.css", "root.css", "rootother/a.css", "deep/c.png", "other.txt", "noext", "secret/key.js", "text/one.cpp", "index"});
        if (r.chance(1, 6))
            s = t.base + "/" + r.pick(std::vector<Str>{"a.css", "other.txt", "text/one.cpp"});
    } else {
        for (u32 n = 1 + r.below(6); n > 0; n--) {
            s += r.chance(1, 3) ? Str("..") : r.chance(1, 8) ? Str(".") : r.pick(t.words);
            s += n > 1 ? (r.chance(1, 8) ? "//" : "/") : r.chance(1, 10) ? "/" : "";
        }
    }
    if (r.chance(1, 3))
        s = Str(1 + r.below(3), '/') + s;
    if (r.chance(1, 40) && !s.empty())
        s[r.below((u32) s.size())] = (char) r.below(256);
    return s;
}

VF_WORKLOAD(files, 12000, 200000) {
    Tree& t = tree(r);
    static web::FetchFromFileSystem* fetch = nullptr;
    if (!fetch) {
        fetch = new web::FetchFromFileSystem;
        fetch->rootDir = view(t.root);
    }
    Str path = requestPath(r, t), query;
    if (path.find('?') != Str::npos)
        return;
    if (r.chance(1, 5))
        query = "?" + r.pick(std::vector<Str>{"", "1", "../../a.css", "x.js?y", "a=b/c.png"});
    int64_t live = liveBytes();
    {
        Capture cap;
        Exact ex(path + query);
        web::FetchFromFileSystem::serve(fetch, ex.view(), &cap);
        Str what = esc(path + query);
        VF_CHECKR((cap.finish()), , "framing", "%u headers for %s", cap.began, what.c_str());
        VF_CHECK((cap.body.find(Marker) == Str::npos), "outside", "%s returns a file outside: %s", what.c_str(), esc(cap.body).substr(0, 100).c_str());
        size_t lead = path.find_first_not_of('/');
        Meaning m = meaning(lead == Str::npos ? Str() : path.substr(lead));
        if (m.escapes)
            count("escapingPaths", 1);
        else if (path.find('\0') == Str::npos) {
            const char* type = nullptr;
            size_t dot = m.last.rfind('.'), nonDot = m.last.find_first_not_of('.');
            if (dot != Str::npos && nonDot != Str::npos && dot > nonDot) {
                for (auto& e : exts) {
                    if (m.last.substr(dot) == e[0])
                        type = e[1];
                }
            }
            auto it = t.files.find(m.rel);
            bool found = type && it != t.files.end();
            VF_CHECK((found == (cap.code == web::ResponseCode::OK)), "found", "%s %s", what.c_str(), found ? "not found" : "found");
            if (found) {
                VF_CHECK((cap.body == it->second), "contents", "%s: %zu bytes, not %zu", what.c_str(), cap.body.size(), it->second.size());
                VF_CHECK((cap.header.find(Str("Content-Type: ") + type + "\r\n") == 0), "type", "%s for %s", esc(cap.header).c_str(), what.c_str());
                count("filesServed", 1);
            }
        }
        VF_CHECK((cap.code == web::ResponseCode::OK || cap.code == web::ResponseCode::NotFound), "code", "%d for %s", (int) cap.code, what.c_str());
    }
    VF_CHECK((idx < 8 || liveBytes() == live), "leak", "%lld bytes", (long long) (liveBytes() - live));
    evals(1);
    distinct(hashStr(path + query));
    if (idx < 20)
        sample(esc(path + query));
}

Str unxml(const Str& s) {
    Str o;
    for (size_t i = 0; i < s.size(); i++) {
        static const char* const names[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}};
        bool got = false;
        for (auto& n : names) {
            if (s.compare(i, strlen(n[0]), n[0]) == 0) {
                o += n[1];
                i += strlen(n[0]) - 1;
                got = true;
                break;
            }
        }
        if (!got)
            o += s[i];
    }
    return o;
}
Str xml(const Str& s) {
    Str o;
    for (char c : s)
        o += c == '<' ? Str("&lt;") : c == '>' ? Str("&gt;") : c == '&' ? Str("&amp;") : c == '"' ? Str("&quot;") : Str(1, c);
    return o;
}

VF_WORKLOAD(sources, 8000, 120000) {
    Tree& t = tree(r);
    static web::SourceCode* source = nullptr;
    if (!source) {
        source = new web::SourceCode;
        source->rootDir = view(t.root);
    }
    Str path = requestPath(r, t);
    if (r.chance(1, 3))
        path = r.pick(std::vector<Str>{"text/one.cpp", "text/two.h", "text/blank", "text/long.txt", "/text/one.cpp", "//text/../text/two.h"});
    int64_t live = liveBytes();
    {
        Capture cap;
        Exact ex(path);
        web::SourceCode::serve(source, ex.view(), &cap);
        Str what = esc(path);
        VF_CHECKR((cap.finish()), , "framing", "%u headers for %s", cap.began, what.c_str());
        VF_CHECK((cap.body.find(Marker) == Str::npos), "outside", "%s returns a file outside: %s", what.c_str(), esc(cap.body).substr(0, 100).c_str());
        size_t lead = path.find_first_not_of('/');
        Meaning m = meaning(lead == Str::npos ? Str() : path.substr(lead));
        bool isDir = std::find(t.dirs.begin(), t.dirs.end(), m.rel) != t.dirs.end();
        if (m.escapes)
            count("escapingPaths", 1);
        else if (path.find('\0') == Str::npos && !isDir) {
            auto it = t.files.find(m.rel);
            // a trailing separator asks for a folder
            bool folder = !path.empty() && path.back() == '/';
            if (!folder)
                VF_CHECK(((it != t.files.end()) == (cap.code == web::ResponseCode::OK)), "found", "%s: code %d", what.c_str(), (int) cap.code);
            if (!folder && it != t.files.end() && m.rel.compare(0, 5, "text/") == 0) {
                // the lines on the page are the lines of the file
                Str lines;
                size_t at = 0;
                u32 n = 0;
                for (;;) {
                    Str open = vf::fmt("<tr><td id=\"L%u\">%u</td><td id=\"LC%u\">", n + 1, n + 1, n + 1);
                    size_t from = cap.body.find(open, at);
                    if (from == Str::npos)
                        break;
                    from += open.size();
                    size_t to = cap.body.find("</td></tr>", from);
                    Str line = cap.body.substr(from, to - from);
                    VF_CHECK((line.find('<') == Str::npos), "escaping", "line %u of %s: %s", n + 1, what.c_str(), esc(line).substr(0, 100).c_str());
                    lines += unxml(line);
                    at = to;
                    n++;
                }
                size_t want = (size_t) std::count(it->second.begin(), it->second.end(), '\n') + (it->second.empty() || it->second.back() == '\n' ? 0 : 1);
                VF_CHECK((lines == it->second && n == want), "lines", "%u lines, not %zu, of %s", n, want, what.c_str());
                Str name = m.rel.substr(m.rel.rfind('/') + 1);
                VF_CHECK((cap.body.find("<title>" + xml(name) + "</title>") != Str::npos), "title", "%s", what.c_str());
                count("sourcesServed", 1);
                count("sourceLines", n);
            }
        }
    }
    VF_CHECK((idx < 8 || liveBytes() == live), "leak", "%lld bytes", (long long) (liveBytes() - live));
    evals(1);
    distinct(hashStr(path));
}

//---- Documentation

struct Toc {
    Str title, link;
    std::vector<Toc> children;
    Str pylon() const {
        Str s = "{title: " + quoted(title) + ", linkDestination: " + quoted(link) + ", children: [";
        for (auto& c : children)
            s += c.pylon() + "\n";
        return s + "]}";
    }
    static Str quoted(const Str& s) {
        Str o = "\"";
        for (char c : s)
            o += c == '"' || c == '\\' ? Str("\\") + c : Str(1, c);
        return o + "\"";
    }
    // depth-first, the last one with this link
    static void find(const std::vector<Toc>& nodes, const Str& link, std::vector<const Toc*>& at, std::vector<const Toc*>& best) {
        for (auto& n : nodes) {
            at.push_back(&n);
            if (!n.link.empty() && n.link == link)
                best = at;
            find(n.children, link, at, best);
            at.pop_back();
        }
    }
    static Str html(const std::vector<Toc>& nodes, const std::vector<const Toc*>& path, size_t depth) {
        Str s;
        for (auto& n : nodes) {
            bool on = depth < path.size() && path[depth] == &n;
            if (!n.link.empty())
                s += "<a href=\"" + n.link + "\">";
            s += "<li class=\"selectable";
            if (!n.children.empty())
                s += on ? " caret caret-down" : " caret";
            if (on && depth + 1 == path.size())
                s += " selected";
            s += "\"><span>" + xml(n.title) + "</span></li>\n";
            if (!n.link.empty())
                s += "</a>";
            if (!n.children.empty()) {
                s += on ? "<ul class=\"nested active\">\n" : "<ul class=\"nested\">\n";
                s += html(n.children, on ? path : std::vector<const Toc*>(), depth + 1);
                s += "</ul>\n";
            }
        }
        return s;
    }
};

struct Docs {
    Str base, data;
    std::map<Str, Str> pages; // relative to pages, without .html
    std::vector<Toc> toc;
    web::DocServer server;
    u32 version = 0;
};

void randomToc(vf::Rng& r, std::vector<Toc>& nodes, const std::vector<Str>& links, u32 depth, const Str& prefix) {
    for (u32 n = depth ? r.below(3) : 1 + r.below(4); n > 0; n--) {
        nodes.push_back({});
        nodes.back().title = prefix + randOver(r, "abc <>&\"'", 12);
        if (r.chance(3, 4))
            nodes.back().link = r.chance(1, 4) ? r.pick(std::vector<Str>{"/", "/docs/", "/docs/nowhere", "http://x/"}) : "/docs/" + r.pick(links);
        if (depth < 4)
            randomToc(r, nodes.back().children, links, depth + 1, prefix);
    }
}

void writeContents(Docs& d) {
    Str s = "[";
    for (auto& n : d.toc)
        s += n.pylon() + "\n";
    s += "]";
    Str path = d.data + "/contents.pylon", tmp = d.data + "/contents.new";
    fs::writeAll(tmp, s);
    struct timespec ts[2] = {{(time_t) (1500000000 + d.version), 0}, {(time_t) (1500000000 + d.version), 0}};
    utimensat(AT_FDCWD, tmp.c_str(), ts, 0);
    rename(tmp.c_str(), path.c_str());
    d.version++;
}

Docs& docs(vf::Rng& r, bool reset = false) {
    static Docs* d = nullptr;
    if (d && !reset)
        return *d;
    delete d;
    d = new Docs;
    vf::Rng q(99);
    d->base = scratch() + vf::fmt("/docs%d", (int) getpid());
    d->data = d->base + "/data";
    for (auto& p : std::vector<Str>{"index", "foo", "dir/index", "dir/bar", "dir/sub/baz", "both", "both/index", "sp ace", "a.b", "caf\xc3\xa9"}) {
        Str body = " Title of " + p + " \n";
        for (u32 n = q.below(20); n > 0; n--)
            body += randOver(q, "abc<>&{}\" ", 50) + "\n";
        Tree::put(d->data + "/pages/" + p + ".html", body);
        d->pages[p] = body;
    }
    for (auto& p : std::vector<Str>{"/outside.html", "/index.html", "/data/index.html", "/data/foo.html", "/data/pages.html", "/data/dir/index.html", "/data/pagesother/foo.html", "/foo.html"})
        Tree::put(d->base + p, Str(Marker) + "\n" + p);
    std::vector<Str> links;
    for (auto& p : d->pages)
        links.push_back(p.first);
    randomToc(r, d->toc, links, 0, "");
    writeContents(*d);
    d->server.init(view(d->data));
    return *d;
}

Str docPath(vf::Rng& r, Docs& d) {
    auto it = d.pages.begin();
    std::advance(it, r.below((u32) d.pages.size()));
    switch (r.below(6)) {
        case 0:
            return it->first;
        case 1:
            return r.pick(std::vector<Str>{"", "dir", "both", "dir/", "dir/sub", ".", "foo/", "dir/../foo", "./foo", "dir//bar"});
        case 2:
            return r.pick(std::vector<Str>{"..", "../", "../..", "../../outside", "../index", "../foo", "dir/../../foo", "../pagesother/foo", "../../foo", "foo/../..", "../pages", "../dir", "../../data", "../pages/foo"});
        case 3:
            return d.data + r.pick(std::vector<Str>{"", "/index", "/pages/foo", "/../foo", "/.."});
        default: {
            Str s;
            for (u32 n = 1 + r.below(5); n > 0; n--)
                s += r.pick(std::vector<Str>{"..", "..", ".", "foo", "dir", "bar", "sub", "baz", "index", "pages", "data", "outside", "a.b", "\xff", "x"}) + (n > 1 ? r.pick(std::vector<Str>{"/", "/", "/", "//"}) : Str());
            return s;
        }
    }
}

VF_WORKLOAD(pages, 6000, 100000) {
    Docs& d = docs(r);
    if (r.chance(1, 25)) { // new contents
        std::vector<Str> links;
        for (auto& p : d.pages)
            links.push_back(p.first);
        d.toc.clear();
        randomToc(r, d.toc, links, 0, vf::fmt("%u ", d.version));
        writeContents(d);
        count("contentsChanged", 1);
    }
    Str path = docPath(r, d);
    bool only = r.chance(1, 2);
    Capture cap;
    {
        Exact ex(path);
        if (only)
            d.server.serveContentOnly(ex.view(), &cap);
        else
            d.server.serve(ex.view(), &cap);
    }
    Str what = esc(path);
    VF_CHECKR((cap.finish()), , "framing", "%u headers for %s", cap.began, what.c_str());
    VF_CHECK((cap.body.find(Marker) == Str::npos), "outside", "%s returns a page outside: %s", what.c_str(), esc(cap.body).substr(0, 100).c_str());
    Meaning m = meaning(path);
    if (m.escapes || (!path.empty() && path[0] == '/')) {
        count("escapingPaths", 1);
        if (path[0] == '/')
            VF_CHECK((cap.code == web::ResponseCode::NotFound), "absolute", "%s: code %d", what.c_str(), (int) cap.code);
    } else {
        bool isDir = m.rel.empty() || m.rel == "dir" || m.rel == "dir/sub" || m.rel == "both";
        Str key = isDir ? m.rel + (m.rel.empty() ? "index" : "/index") : m.rel;
        auto it = d.pages.find(key);
        bool folder = !path.empty() && path.back() == '/' && !isDir;
        bool found = it != d.pages.end() && !folder;
        VF_CHECK((found == (cap.code == web::ResponseCode::OK)), "found", "%s: code %d", what.c_str(), (int) cap.code);
        if (found && cap.code == web::ResponseCode::OK) {
            size_t nl = it->second.find('\n');
            Str title = it->second.substr(1, nl - 2), rest = it->second.substr(nl + 1);
            if (only)
                VF_CHECK((cap.body == title + "\n<h1>" + title + "</h1>\n" + rest), "content", "%s: %s", what.c_str(), esc(cap.body).substr(0, 200).c_str());
            else {
                VF_CHECK((cap.body.find("<title>" + title + "</title>") != Str::npos), "title", "%s: %s", what.c_str(), esc(cap.body).substr(0, 200).c_str());
                VF_CHECK((cap.body.find("<h1>" + title + "</h1>\n" + rest + "\n  </article>\n</body>\n</html>\n") != Str::npos), "page", "%s", what.c_str());
                std::vector<const Toc*> at, best;
                Toc::find(d.toc, path.empty() ? Str("/") : "/docs/" + path, at, best);
                Str toc = "        <ul>\n" + Toc::html(d.toc, best, 0) + "\n        </ul>\n";
                VF_CHECK((cap.body.find(toc) != Str::npos), "contents", "%s: %s not in the page", what.c_str(), esc(toc).substr(0, 600).c_str());
                count("tocNodesSelected", best.size());
            }
            count("pagesServed", 1);
        }
    }
    evals(1);
    distinct(hashStr(path) * 2 + only);
    if (idx < 20)
        sample(esc(path));
}

// Contents change while pages are served: every page has one whole version
VF_WORKLOAD_SERIAL(reload, 15, 300) {
    Docs& d = docs(r, true);
    std::vector<Str> versions; // tables of contents, as HTML
    const u32 numVersions = 12;
    std::vector<std::vector<Toc>> tocs(numVersions);
    for (u32 v = 0; v < numVersions; v++) {
        randomToc(r, tocs[v], {"nowhere"}, 0, vf::fmt("v%u ", v));
        versions.push_back("        <ul>\n" + Toc::html(tocs[v], {}, 0) + "\n        </ul>\n");
    }
    d.toc = tocs[0];
    writeContents(d);
    {
        Capture cap;
        d.server.serve("foo", &cap);
    }
    std::atomic<bool> stop{false};
    u32 n = 2 + r.below(4);
    std::vector<std::thread> threads;
    std::vector<Str> problems(n);
    std::vector<u32> served(n), changes(n);
    for (u32 i = 0; i < n; i++) {
        threads.emplace_back([&, i] {
            size_t last = 0;
            do {
                Capture cap;
                d.server.serve("foo", &cap);
                if (!cap.finish() || cap.code != web::ResponseCode::OK) {
                    problems[i] = vf::fmt("code %d", (int) cap.code);
                    return;
                }
                size_t v = 0;
                while (v < versions.size() && cap.body.find(versions[v]) == Str::npos)
                    v++;
                if (v == versions.size()) {
                    problems[i] = "no whole version in " + esc(cap.body.substr(cap.body.find("scroller"), 900));
                    return;
                }
                changes[i] += v != last;
                last = v;
                served[i]++;
            } while (!stop);
        });
    }
    for (u32 v = 1; v < numVersions; v++) {
        d.toc = tocs[v];
        writeContents(d);
        if (r.chance(1, 2))
            usleep(r.below(2000));
    }
    usleep(r.below(2000));
    stop = true;
    for (auto& t : threads)
        t.join();
    for (u32 i = 0; i < n; i++) {
        VF_CHECK((problems[i].empty()), "version", "%s", problems[i].c_str());
        count("pagesServedDuringReloads", served[i]);
        count("versionChangesSeen", changes[i]);
    }
    Capture cap;
    d.server.serve("foo", &cap);
    VF_CHECK((cap.finish() && cap.body.find(versions.back()) != Str::npos), "last-version", "the last contents aren't served");
    evals(1);
    distinct(r.u64());
}

} // namespace

VF_MAIN()
