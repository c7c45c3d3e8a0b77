// C39: the command-line tool's state survives every sequence of commands.
#include "toolvf.h"
using namespace vf;
using namespace vf::tool;

namespace {

const char* kRepos[] = {"alpha", "beta", "gam-ma"};
const char* kLibs[] = {"core", "util", "lib-x"};
const char* kExes[] = {"one", "two"};
const char* kExterns[] = {"exa", "exb"};
const char* kProvs[] = {"pa", "pb"};

enum Status { Installed, NotInstalled, FailsToInstall, NotOnHost, NotForToolchain, NumStatus };

struct Dep {
    bool isExtern;
    unsigned idx;
    Str spelled;
};
struct Mod {
    unsigned repo;
    Str name;
    bool exe, noSources = false;
    int rank;
    std::vector<Dep> deps;
};
struct Ext {
    unsigned repo;
    Str name;
};
struct Prov {
    unsigned ext, repo;
    Str name;
    Status status;
};

struct World {
    std::vector<Str> repos;
    std::vector<std::vector<unsigned>> children;
    std::vector<Mod> mods;
    std::vector<Ext> exts;
    std::vector<Prov> provs;

    void visit(unsigned r, std::vector<unsigned>* out) const {
        if (std::find(out->begin(), out->end(), r) != out->end())
            return;
        out->push_back(r);
        for (unsigned c : children[r])
            visit(c, out);
    }
    std::vector<unsigned> visible(unsigned r) const {
        std::vector<unsigned> v;
        visit(r, &v);
        return v;
    }
    int repoIdx(const Str& n) const {
        for (unsigned i = 0; i < repos.size(); i++)
            if (repos[i] == n)
                return (int) i;
        return -1;
    }
    int modIn(unsigned r, const Str& n) const {
        for (unsigned i = 0; i < mods.size(); i++)
            if (mods[i].repo == r && mods[i].name == n)
                return (int) i;
        return -1;
    }
    int extIn(unsigned r, const Str& n) const {
        for (unsigned i = 0; i < exts.size(); i++)
            if (exts[i].repo == r && exts[i].name == n)
                return (int) i;
        return -1;
    }
    Str fullMod(int m) const {
        return repos[mods[(unsigned) m].repo] + "." + mods[(unsigned) m].name;
    }
    Str fullProv(int p) const {
        const Prov& v = provs[(unsigned) p];
        const Ext& e = exts[v.ext];
        return repos[e.repo] + "." + e.name + "." + (e.repo == v.repo ? Str() : repos[v.repo] + ".") + v.name;
    }
    static bool split(const Str& s, std::vector<Str>* out) {
        Str cur;
        for (size_t i = 0; i <= s.size(); i++) {
            if (i == s.size() || s[i] == '.') {
                if (cur.empty())
                    return false;
                out->push_back(cur);
                cur.clear();
            } else {
                char c = s[i];
                bool ok = isalpha((unsigned char) c) || c == '_' || c == '-' || (!cur.empty() && isdigit((unsigned char) c));
                if (!ok)
                    return false;
                cur += c;
            }
        }
        return true;
    }
    int resolveMod(const Str& s) const {
        std::vector<Str> c;
        if (!split(s, &c))
            return -1;
        int r = repoIdx(c[0]);
        if (r >= 0)
            return c.size() == 2 ? modIn((unsigned) r, c[1]) : -1;
        if (c.size() != 1)
            return -1;
        int found = -1;
        for (unsigned i = 0; i < repos.size(); i++) {
            int m = modIn(i, c[0]);
            if (m >= 0 && found >= 0)
                return -1;
            if (m >= 0)
                found = m;
        }
        return found;
    }
    int resolveExtPart(const std::vector<Str>& c, size_t* at) const {
        int r = repoIdx(c[0]);
        if (r >= 0) {
            if (c.size() < 2)
                return -1;
            *at = 2;
            return extIn((unsigned) r, c[1]);
        }
        *at = 1;
        int found = -1;
        for (unsigned i = 0; i < repos.size(); i++) {
            int m = extIn(i, c[0]);
            if (m >= 0 && found >= 0)
                return -1;
            if (m >= 0)
                found = m;
        }
        return found;
    }
    int resolveExt(const Str& s) const {
        std::vector<Str> c;
        size_t at = 0;
        if (!split(s, &c))
            return -1;
        int e = resolveExtPart(c, &at);
        return at == c.size() ? e : -1;
    }
    int resolveProv(const Str& s) const {
        std::vector<Str> c;
        size_t at = 0;
        if (!split(s, &c))
            return -1;
        int e = resolveExtPart(c, &at);
        if (e < 0 || at == c.size())
            return -1;
        int r = repoIdx(c[at]);
        if (r >= 0)
            at++;
        if (at + 1 != c.size())
            return -1;
        int found = -1;
        if (r < 0 && repoIdx(c[0]) >= 0)
            for (unsigned i = 0; i < provs.size(); i++) // the extern's own repo comes first: this is its full name
                if (provs[i].ext == (unsigned) e && provs[i].name == c[at] && provs[i].repo == exts[(unsigned) e].repo)
                    return (int) i;
        for (unsigned i = 0; i < provs.size(); i++)
            if (provs[i].ext == (unsigned) e && provs[i].name == c[at] && (r < 0 || provs[i].repo == (unsigned) r)) {
                if (found >= 0)
                    return -1;
                found = (int) i;
            }
        return found;
    }
};

World makeWorld(Rng& r, unsigned numRepos) {
    World w;
    for (unsigned i = 0; i < numRepos; i++) {
        w.repos.push_back(kRepos[i]);
        std::vector<unsigned> ch;
        for (unsigned j = 0; j < i; j++)
            if (r.chance(3, 4))
                ch.push_back(j);
        w.children.push_back(ch);
    }
    for (unsigned i = 0; i < numRepos; i++) {
        for (int k = 0; k < 3; k++)
            if (r.chance(3, 5))
                w.mods.push_back({i, kLibs[k], false, false, k, {}});
        bool any = false;
        for (int k = 0; k < 2; k++)
            if (r.chance(3, 5) || (!any && k == 1))
                any = true, w.mods.push_back({i, kExes[k], true, r.chance(1, 6), 3 + k, {}});
        // Providers, in the order they are registered
        unsigned n = r.below(6);
        std::set<std::pair<Str, Str>> used;
        for (unsigned k = 0; k < n; k++) {
            Str en = r.pick(kExterns), pn = r.pick(kProvs);
            std::vector<unsigned> vis = w.visible(i);
            int e = -1;
            for (unsigned v : vis) {
                int x = w.extIn(v, en);
                if (x >= 0 && e >= 0) {
                    e = -2;
                    break;
                }
                if (x >= 0)
                    e = x;
            }
            if (e == -2)
                continue; // ambiguous
            if (!used.insert({en, pn}).second)
                continue;
            if (e < 0) {
                w.exts.push_back({i, en});
                e = (int) w.exts.size() - 1;
            }
            w.provs.push_back({(unsigned) e, i, pn, (Status) r.below(NumStatus)});
        }
    }
    // Dependencies
    for (Mod& m : w.mods) {
        std::vector<unsigned> vis = w.visible(m.repo);
        for (unsigned t = 0; t < w.mods.size(); t++) {
            const Mod& o = w.mods[t];
            if (o.exe || o.rank >= m.rank || !r.chance(1, 2))
                continue;
            if (std::find(vis.begin(), vis.end(), o.repo) == vis.end())
                continue;
            unsigned same = 0;
            for (unsigned v : vis)
                same += w.modIn(v, o.name) >= 0;
            bool bare = same == 1 && r.chance(1, 2);
            m.deps.push_back({false, t, bare ? o.name : w.fullMod((int) t)});
        }
        for (unsigned e = 0; e < w.exts.size(); e++) {
            const Ext& x = w.exts[e];
            if (!r.chance(1, 4) || std::find(vis.begin(), vis.end(), x.repo) == vis.end())
                continue;
            unsigned same = 0;
            for (unsigned v : vis)
                same += w.extIn(v, x.name) >= 0;
            bool bare = same == 1 && r.chance(1, 2);
            m.deps.push_back({true, e, bare ? x.name : w.repos[x.repo] + "." + x.name});
        }
        for (size_t k = 1; k < m.deps.size(); k++)
            std::swap(m.deps[k], m.deps[r.below((uint32_t) k + 1)]);
    }
    return w;
}

const char* kStatus[] = {"Installed", "SupportedButNotInstalled", "SupportedButNotInstalled", "UnsupportedHost", "UnsupportedToolchain"};
const char* kInstall[] = {"Installed", "Installed", "InstallFailed", "UnsupportedHost", "UnsupportedToolchain"};

Str ident(const Str& s) {
    Str o;
    for (char c : s)
        o += c == '-' || c == '.' ? '_' : c;
    return o;
}
Str modText(const World& w, const Mod& m) {
    Str id = ident(w.repos[m.repo] + "_" + m.name);
    Str t = "// [ply module=\"" + m.name + "\"]\nvoid module_" + id + "(ModuleArgs* args) {\n    args->buildTarget->targetType = BuildTargetType::" +
            (m.exe ? "EXE" : "Lib") + ";\n";
    if (!m.noSources)
        t += "    args->addSourceFiles(\"" + m.name + "\");\n";
    for (const Dep& d : m.deps)
        t += Str("    args->") + (d.isExtern ? "addExtern" : "addTarget") + "(Visibility::Public, \"" + d.spelled + "\");\n";
    return t + "}\n\n";
}
void writeWorld(const Workspace& ws, const World& w) {
    for (unsigned i = 0; i < w.repos.size(); i++) {
        Str dir = ws.dir + "/repos/" + w.repos[i];
        Str head = "#include <ply-build-repo/Module.h>\n\n", a = head, b = head;
        bool second = false;
        for (const Mod& m : w.mods)
            if (m.repo == i) {
                Str& to = m.rank % 2 ? b : a;
                second |= m.rank % 2 != 0;
                to += modText(w, m);
                put(dir + (m.rank % 2 ? "/sub/" : "/") + m.name + "/main.cpp", m.exe ? "int main() {\n}\n" : "int " + ident(w.repos[i] + m.name) + "() {\n    return 0;\n}\n");
            }
        for (unsigned p = 0; p < w.provs.size(); p++) {
            const Prov& v = w.provs[p];
            if (v.repo != i)
                continue;
            a += "// [ply extern=\"" + w.exts[v.ext].name + "\" provider=\"" + v.name + "\"]\nExternResult provider_" + std::to_string(p) +
                 "(ExternCommand cmd, ExternProviderArgs* args) {\n    switch (cmd) {\n        case ExternCommand::Status:\n"
                 "            return {ExternResult::" + kStatus[v.status] + ", \"\"};\n        case ExternCommand::Install:\n"
                 "            return {ExternResult::" + kInstall[v.status] + ", \"\"};\n        case ExternCommand::Instantiate:\n"
                 "            return {ExternResult::" + (v.status == Installed ? "Instantiated" : kStatus[v.status]) + ", \"\"};\n    }\n"
                 "    return {ExternResult::Unknown, \"\"};\n}\n\n";
        }
        put(dir + "/main.modules.cpp", a);
        if (second)
            put(dir + "/sub/more.modules.cpp", b);
        if (!w.children[i].empty()) {
            Str t = "{\n  \"dependsOn\": [";
            for (size_t k = 0; k < w.children[i].size(); k++)
                t += Str(k ? ", " : "") + "\"" + w.repos[w.children[i][k]] + "\"";
            put(dir + "/info.pylon", t + "]\n}\n");
        }
    }
}

struct Folder {
    std::vector<int> roots, selected;
    int active = -1;
};

struct Session {
    Rng& r;
    Workspace& ws;
    const World& w;
    std::map<Str, Folder> folders;
    Str current;
    Str history;

    Folder* cur() {
        auto it = folders.find(current);
        return it == folders.end() ? nullptr : &it->second;
    }

    // ---- running
    Result go(const std::vector<Str>& args) {
        history += "; " + joinArgs(args);
        ctx(history.size() > 6000 ? history.substr(history.size() - 6000) : history);
        evals(1);
        return ws.run(args);
    }
    static fs::Snap base(const fs::Snap& s) {
        fs::Snap t = s;
        t.erase("ws/data"); // made when the module definitions are built
        t.erase("ws/data/build");
        t.erase("");
        t.erase("ws");
        return t;
    }
    // Paths that differ and are not below one of the allowed ones
    static Str outside(const fs::Snap& a, const fs::Snap& b, const std::vector<Str>& allowed) {
        fs::Snap x = base(a), y = base(b);
        auto drop = [&](fs::Snap& s) {
            for (auto it = s.begin(); it != s.end();) {
                bool in = false;
                for (const Str& p : allowed)
                    in |= it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0;
                if (in)
                    it = s.erase(it);
                else
                    ++it;
            }
        };
        drop(x);
        drop(y);
        return x == y ? Str() : fs::diff(x, y);
    }
    Str folderPath(const Str& n) {
        return "ws/data/build/" + n;
    }
    const Str settings = "ws/workspace-settings.pylon";

    // A command that has to fail and change nothing
    bool mustFail(const std::vector<Str>& args, const char* why) {
        fs::Snap a = ws.everything();
        Result x = go(args);
        fs::Snap b = ws.everything();
        VF_CHECKR(!x.crashed(), false, "crash", "[%s] (%s) crashed: %s; history: %s", joinArgs(args).c_str(), why, x.all().c_str(), history.c_str());
        VF_CHECKR(x.code != 0, false, "accepted", "[%s] should fail (%s) but succeeded: %s; history: %s", joinArgs(args).c_str(), why,
                  x.all().c_str(), history.c_str());
        std::vector<Str> allowed;
        if (cur())
            allowed.push_back(folderPath(current) + "/codegen"); // empty sources of targets that have none
        Str d = outside(a, b, allowed);
        VF_CHECKR(d.empty(), false, "failed-command-changes", "[%s] failed (%s) but changed%s; %s; history: %s", joinArgs(args).c_str(), why, d.c_str(),
                  x.all().c_str(), history.c_str());
        count("commands.failing");
        return true;
    }
    bool mustPass(const std::vector<Str>& args, const std::vector<Str>& allowed, Result* out = nullptr) {
        fs::Snap a = ws.everything();
        Result x = go(args);
        fs::Snap b = ws.everything();
        VF_CHECKR(!x.crashed(), false, "crash", "[%s] crashed: %s; history: %s", joinArgs(args).c_str(), x.all().c_str(), history.c_str());
        VF_CHECKR(x.code == 0, false, "refused", "[%s] should succeed: %s; history: %s", joinArgs(args).c_str(), x.all().c_str(), history.c_str());
        std::vector<Str> al = allowed;
        if (cur())
            al.push_back(folderPath(current) + "/codegen");
        Str d = outside(a, b, al);
        VF_CHECKR(d.empty(), false, "touches-others", "[%s] changed%s; history: %s", joinArgs(args).c_str(), d.c_str(), history.c_str());
        count("commands.passing");
        if (out)
            *out = x;
        return true;
    }

    Str cut(const Str& word, unsigned least) {
        if (r.chance(3, 4) || word.size() <= least)
            return word;
        return word.substr(0, least + r.below((uint32_t) (word.size() - least)));
    }
    std::vector<Str> cmd(const Str& cat, const Str& sub, const std::vector<Str>& rest = {}) {
        unsigned least = sub == "selected" ? 7 : sub == "install" ? 3 : 2;
        std::vector<Str> v{cut(cat, 2), cut(sub, least)};
        v.insert(v.end(), rest.begin(), rest.end());
        return v;
    }
    // Makes a command malformed
    std::vector<Str> spoil(std::vector<Str> v) {
        switch (r.below(3)) {
            case 0:
                v.push_back("surplus");
                break;
            case 1:
                v.insert(v.begin() + (long) r.below((uint32_t) v.size() + 1), r.pick({Str("--bogus"), Str("-x"), Str("--shar")}));
                break;
            default:
                v[1] = r.pick({Str("xyzzy"), Str("l"), Str("creates"), Str("listing"), Str("CREATE")});
                break;
        }
        return v;
    }

    // ---- listings
    bool listFolders() {
        Result x;
        if (!mustPass(cmd("folder", "list"), {}, &x))
            return false;
        std::multiset<Str> got, want;
        for (const Str& e : entries(x.out))
            got.insert(e);
        for (auto& f : folders)
            want.insert(f.first + (f.first == current ? " (active)" : ""));
        VF_CHECKR(got == want, false, "folder-list", "folders listed: %s; the commands define %d with '%s' current; history: %s", esc(x.out).c_str(),
                  (int) folders.size(), esc(current).c_str(), history.c_str());
        return true;
    }
    bool listTargets() {
        Folder* f = cur();
        Result x;
        if (!mustPass(cmd("target", "list"), {}, &x))
            return false;
        std::vector<Str> e = entries(x.out);
        bool ok = e.size() == f->roots.size();
        for (size_t i = 0; ok && i < e.size(); i++) {
            Str n = e[i];
            bool act = false;
            size_t p = n.find(" (active)");
            if (p != Str::npos) {
                act = true;
                n = n.substr(0, p);
            }
            ok = w.resolveMod(n) == f->roots[i] && act == (f->roots[i] == f->active);
        }
        Str want;
        for (int m : f->roots)
            want += " " + w.fullMod(m) + (m == f->active ? "*" : "");
        VF_CHECKR(ok, false, "target-list", "targets listed: %s; the commands define%s; history: %s", esc(x.out).c_str(), want.c_str(), history.c_str());
        return true;
    }
    bool listSelected() {
        Folder* f = cur();
        Result x;
        if (!mustPass(cmd("extern", "selected"), {}, &x))
            return false;
        std::vector<Str> e = entries(x.out);
        bool ok = e.size() == f->selected.size();
        for (size_t i = 0; ok && i < e.size(); i++)
            ok = w.resolveProv(e[i]) == f->selected[i];
        Str want;
        for (int m : f->selected)
            want += " " + w.fullProv(m);
        VF_CHECKR(ok, false, "selected-list", "providers listed: %s; the commands define%s; history: %s", esc(x.out).c_str(), want.c_str(), history.c_str());
        return true;
    }
    struct Node {
        unsigned depth;
        bool isExtern, again;
        int idx, prov; // prov: -1 unselected
        bool installed;
    };
    void graphOf(bool isExt, int idx, unsigned depth, std::set<std::pair<bool, int>>* seen, std::vector<Node>* out) {
        const Folder* f = cur();
        Node n{depth, isExt, !seen->insert({isExt, idx}).second, idx, -1, false};
        if (isExt)
            for (int p : f->selected)
                if ((int) w.provs[(unsigned) p].ext == idx) {
                    n.prov = p;
                    n.installed = w.provs[(unsigned) p].status == Installed;
                    break;
                }
        out->push_back(n);
        if (!isExt && !n.again)
            for (const Dep& d : w.mods[(unsigned) idx].deps)
                graphOf(d.isExtern, (int) d.idx, depth + 1, seen, out);
    }
    std::vector<Node> graph() {
        std::vector<Node> v;
        std::set<std::pair<bool, int>> seen;
        for (int m : cur()->roots)
            graphOf(false, m, 0, &seen, &v);
        return v;
    }
    bool listGraph() {
        Result x;
        if (!mustPass(cmd("target", "graph"), {}, &x))
            return false;
        std::vector<Node> want = graph();
        std::vector<Str> e = entries(x.out);
        bool ok = e.size() == want.size();
        for (size_t i = 0; ok && i < e.size(); i++) {
            Str t = e[i];
            size_t lead = t.find_first_not_of(" +-|`");
            // A name may begin with '-'? It does not here.
            if (lead == Str::npos) {
                ok = false;
                break;
            }
            t = t.substr(lead);
            const Node& n = want[i];
            ok = lead == n.depth * 4;
            if (n.again) {
                ok = ok && t.size() > 2 && t[0] == '(' && t.back() == ')';
                t = ok ? t.substr(1, t.size() - 2) : t;
            } else if (n.isExtern) {
                Str tag;
                size_t p = t.find(" [");
                if (p != Str::npos) {
                    tag = t.substr(p + 2, t.size() - p - 3);
                    t = t.substr(0, p);
                }
                if (n.prov < 0)
                    ok = ok && tag == "unselected extern";
                else {
                    Str pre = n.installed ? "extern => " : "uninstalled extern => ";
                    ok = ok && tag.compare(0, pre.size(), pre) == 0 && w.resolveProv(tag.substr(pre.size())) == n.prov;
                }
            }
            ok = ok && (n.isExtern ? w.resolveExt(t) : w.resolveMod(t)) == n.idx;
        }
        Str wt;
        for (const Node& n : want)
            wt += fmt("\n%*s%s", (int) n.depth * 2, "", n.isExtern ? w.exts[(unsigned) n.idx].name.c_str() : w.fullMod(n.idx).c_str());
        VF_CHECKR(ok, false, "graph", "graph printed:\n%s\nwant:%s\nhistory: %s", x.out.c_str(), wt.c_str(), history.c_str());
        maxOf("graph.nodes", want.size());
        return true;
    }
    bool listModules() {
        Result x;
        if (!mustPass(cmd("module", "list"), {}, &x))
            return false;
        std::vector<Str> got, want;
        Str repo;
        for (const Str& l : lines(x.out)) {
            size_t a = l.find("repo '");
            if (a != Str::npos)
                repo = l.substr(a + 6, l.find('\'', a + 6) - a - 6);
            else if (l.compare(0, 4, "    ") == 0)
                got.push_back(repo + "." + l.substr(4));
        }
        for (unsigned i = 0; i < w.mods.size(); i++)
            want.push_back(w.fullMod((int) i));
        std::sort(want.begin(), want.end(), [&](const Str& a, const Str& b) {
            size_t p = a.find('.'), q = b.find('.');
            return std::make_pair(a.substr(0, p), a.substr(p)) < std::make_pair(b.substr(0, q), b.substr(q));
        });
        VF_CHECKR(got == want, false, "module-list", "modules listed: %s; %d exist; history: %s", esc(x.out).c_str(), (int) want.size(), history.c_str());
        return true;
    }
    bool listExterns() {
        Result x;
        if (!mustPass(cmd("extern", "list"), {}, &x))
            return false;
        std::multiset<int> got, want;
        for (const Str& e : entries(x.out))
            got.insert(w.resolveExt(e));
        for (unsigned i = 0; i < w.exts.size(); i++)
            want.insert((int) i);
        VF_CHECKR(got == want, false, "extern-list", "externs listed: %s; %d exist; history: %s", esc(x.out).c_str(), (int) want.size(), history.c_str());
        return true;
    }
    bool externInfo() {
        if (w.exts.empty())
            return true;
        Str n = extName();
        int e = w.resolveExt(n);
        if (e < 0)
            return mustFail(cmd("extern", "info", {n}), "no such extern");
        Result x;
        if (!mustPass(cmd("extern", "info", {n}), {}, &x))
            return false;
        std::multiset<std::pair<int, Str>> got, want;
        for (const Str& l : entries(x.out)) {
            size_t p = l.find(" (");
            got.insert({w.resolveProv(l.substr(0, p)), p == Str::npos ? Str() : l.substr(p)});
        }
        const char* text[] = {" (installed)", " (not installed)", " (not installed)", " (not supported on host system)", " (not compatible with build folder)"};
        for (unsigned i = 0; i < w.provs.size(); i++)
            if ((int) w.provs[i].ext == e)
                want.insert({(int) i, text[w.provs[i].status]});
        VF_CHECKR(got == want, false, "extern-info", "info on '%s': %s; %d providers exist; history: %s", n.c_str(), esc(x.out).c_str(),
                  (int) want.size(), history.c_str());
        return true;
    }

    // ---- names, sound and unsound
    Str junk() {
        static const std::vector<Str> j{"nope", "alpha", "alpha.", ".one", "alpha.one.two", "a b", "one!", "beta.nope", "nope.one", "..", "one.", "alpha..one",
                                        "exa", "exa.nope", "alpha.exa", "alpha.exa.nope", "alpha.exa.beta.nope", "alpha.exa.beta", "alpha.exa.alpha.pa.x", "exa.pa.x", "9", "beta.exa.pa.pa"};
        return r.pick(j);
    }
    Str modName() {
        if (r.chance(1, 6))
            return junk();
        int m = (int) r.below((uint32_t) w.mods.size());
        return r.chance(1, 2) ? w.fullMod(m) : w.mods[(unsigned) m].name;
    }
    Str extName() {
        if (r.chance(1, 6) || w.exts.empty())
            return junk();
        const Ext& e = r.pick(w.exts);
        return r.chance(1, 2) ? e.name : w.repos[e.repo] + "." + e.name;
    }
    Str provName() {
        if (r.chance(1, 6) || w.provs.empty())
            return junk();
        int p = (int) r.below((uint32_t) w.provs.size());
        const Prov& v = w.provs[(unsigned) p];
        const Ext& e = w.exts[v.ext];
        Str a = r.chance(1, 2) ? e.name : w.repos[e.repo] + "." + e.name;
        return a + "." + (r.chance(1, 2) ? Str() : w.repos[v.repo] + ".") + v.name;
    }
    std::vector<Str> opt(std::vector<Str> v, const Str& o) {
        v.insert(v.begin() + (long) r.below((uint32_t) v.size() + 1), o);
        return v;
    }

    // ---- steps
    bool folderStep() {
        static const std::vector<Str> plain{"foo", "bar", "My Folder", "p\xc3\xa4th", "a.b", "q\"uote", "back\\slash", "tab\there", "x'y", "..hidden", "...",
                                            "{brace}", "#hash", "$HOME", "caf\xc3\xa9 \xe2\x82\xac", "//x"};
        Str n = r.chance(1, 2) && !folders.empty() ? std::next(folders.begin(), r.below((uint32_t) folders.size()))->first
                                                    : plain[r.below((uint32_t) plain.size() - 1)];
        switch (r.below(10)) {
            case 0:
            case 1:
            case 2: {
                std::vector<Str> c = cmd("folder", "create", {n});
                if (folders.count(n))
                    return mustFail(c, "the folder exists");
                if (!mustPass(c, {folderPath(n), settings}))
                    return false;
                folders[n] = Folder{};
                current = n;
                maxOf("folders", folders.size());
                break;
            }
            case 3: {
                std::vector<Str> c = cmd("folder", "delete", {n});
                if (!folders.count(n))
                    return mustFail(c, "no such folder");
                if (!mustPass(c, {folderPath(n), settings}))
                    return false;
                folders.erase(n);
                break;
            }
            case 4:
            case 5: {
                std::vector<Str> c = cmd("folder", "set", {n});
                if (!folders.count(n))
                    return mustFail(c, "no such folder");
                if (!mustPass(c, {settings}))
                    return false;
                current = n;
                break;
            }
            case 6:
                return mustFail(spoil(cmd("folder", r.pick({Str("create"), Str("set"), Str("delete")}), {n})), "malformed");
            case 7:
                return mustFail(cmd("folder", r.pick({Str("create"), Str("set"), Str("delete")}), r.chance(1, 2) ? std::vector<Str>{} : std::vector<Str>{""}), "no name");
            default: {
                // Names that lead out of the build folders' own place
                std::vector<Str> bad{"..", ".", "../evil", "a/b", ws.outer + "/abs", "../../../sentinel", n + "/", "./" + n, n + "/..", n + "/../../" + n, "/", "../build",
                                     Str(300, 'n'), "../../../../evil/x"};
                Str b = r.pick(bad);
                count("names.hostile");
                return mustFail(cmd("folder", r.chance(2, 3) ? "create" : r.pick({Str("set"), Str("delete")}), {b}), "not a folder name");
            }
        }
        return listFolders();
    }
    bool targetStep() {
        Folder* f = cur();
        static const std::vector<Str> subs{"list", "add", "remove", "set", "graph"};
        if (!f)
            return mustFail(cmd("target", r.pick(subs), {}), "no current folder");
        Str n = modName();
        int m = w.resolveMod(n);
        switch (r.below(10)) {
            case 0:
            case 1:
            case 2: {
                std::vector<Str> c = cmd("target", "add", {n});
                // A shared root that uses targets outside of it is a documented limitation, so only the first root is shared.
                if (r.chance(1, 4) && (f->roots.empty() || f->roots[0] == m))
                    c = opt(c, "--shared");
                if (m < 0)
                    return mustFail(c, "no such target");
                if (!mustPass(c, {folderPath(current) + "/info.pylon"}))
                    return false;
                if (std::find(f->roots.begin(), f->roots.end(), m) == f->roots.end())
                    f->roots.push_back(m);
                f->active = m;
                break;
            }
            case 3:
            case 4: {
                if (r.chance(1, 2) && !f->roots.empty())
                    n = w.fullMod(m = r.pick(f->roots));
                std::vector<Str> c = cmd("target", "remove", {n});
                auto it = std::find(f->roots.begin(), f->roots.end(), m);
                if (m < 0 || it == f->roots.end())
                    return mustFail(c, "not a root target");
                if (!mustPass(c, {folderPath(current) + "/info.pylon"}))
                    return false;
                f->roots.erase(it);
                break;
            }
            case 5:
            case 6: {
                std::vector<Str> c = cmd("target", "set", {n});
                bool reached = false;
                for (const Node& x : graph())
                    reached |= !x.isExtern && x.idx == m;
                if (m < 0 || !reached)
                    return mustFail(c, "target not in the folder");
                if (!mustPass(c, {folderPath(current) + "/info.pylon"}))
                    return false;
                f->active = m;
                break;
            }
            case 7:
                return mustFail(spoil(cmd("target", r.pick({Str("add"), Str("remove"), Str("set")}), {n})), "malformed");
            case 8:
                return mustFail(cmd("target", r.pick({Str("add"), Str("remove"), Str("set")})), "no name");
            default:
                return listGraph();
        }
        return listTargets() && (r.chance(2, 3) || listGraph());
    }
    bool externStep() {
        Folder* f = cur();
        static const std::vector<Str> subs{"list", "info", "select", "selected", "install"};
        if (!f)
            return mustFail(cmd("extern", r.pick(subs), {}), "no current folder");
        Str n = provName();
        int p = w.resolveProv(n);
        switch (r.below(8)) {
            case 0:
            case 1:
            case 2: {
                bool inst = r.chance(1, 3);
                std::vector<Str> c = cmd("extern", "select", {n});
                if (inst)
                    c = opt(c, "--install");
                if (p < 0)
                    return mustFail(c, "no such provider");
                Status s = w.provs[(unsigned) p].status;
                if (inst && s != Installed && s != NotInstalled)
                    return mustFail(c, "can't be installed");
                if (!mustPass(c, {folderPath(current) + "/info.pylon"}))
                    return false;
                for (size_t i = 0; i < f->selected.size();)
                    if (w.provs[(unsigned) f->selected[i]].ext == w.provs[(unsigned) p].ext)
                        f->selected.erase(f->selected.begin() + (long) i);
                    else
                        i++;
                f->selected.push_back(p);
                maxOf("selected", f->selected.size());
                break;
            }
            case 3: {
                std::vector<Str> c = cmd("extern", "install", {n});
                if (p < 0)
                    return mustFail(c, "no such provider");
                Status s = w.provs[(unsigned) p].status;
                if (s != Installed && s != NotInstalled)
                    return mustFail(c, "can't be installed");
                return mustPass(c, {});
            }
            case 4:
                return mustFail(spoil(cmd("extern", r.pick({Str("select"), Str("install")}), {n})), "malformed");
            case 5:
                return listExterns();
            default:
                return externInfo();
        }
        return listSelected() && (r.chance(2, 3) || f->roots.empty() || listGraph());
    }
    bool generateStep() {
        Folder* f = cur();
        if (!f)
            return mustFail({cut("generate", 2)}, "no current folder");
        bool lacking = false;
        std::set<Str> names;
        for (const Node& n : graph()) {
            lacking |= n.isExtern && !n.installed;
            if (!n.isExtern && !n.again && !names.insert(w.mods[(unsigned) n.idx].name).second)
                return true; // two targets of one name: not settled
        }
        if (lacking)
            return mustFail({cut("generate", 2)}, "an extern is not there");
        if (!r.chance(1, 5) || current.find_first_of("\"\\\t'#{}$") != Str::npos) // characters special to make and CMake
            return true;
        if (!mustPass({cut("generate", 2)}, {folderPath(current)}))
            return false;
        count("generated");
        return listTargets() && listSelected() && listFolders();
    }
};

} // namespace

VF_WORKLOAD(folders, 16, 600) {
    Workspace ws{"fo"};
    World w;
    Session s{r, ws, w};
    unsigned n = (unsigned) r.range(6, 30);
    for (unsigned i = 0; i < n && !failed(); i++)
        if (!(r.chance(5, 6) ? s.folderStep() : s.listFolders()))
            return;
    distinct(s.history);
    if (wantSample())
        sample(s.history);
}

VF_WORKLOAD(sessions, 32, 1000) {
    Workspace ws{"se"};
    World w = makeWorld(r, (unsigned) r.range(1, 3));
    writeWorld(ws, w);
    Session s{r, ws, w};
    if (r.chance(7, 8)) {
        if (!s.listModules())
            return;
        s.go({"folder", "create", "foo"});
        s.folders["foo"];
        s.current = "foo";
    }
    unsigned n = (unsigned) r.range(10, 45);
    for (unsigned i = 0; i < n && !failed(); i++) {
        bool ok;
        switch (r.below(12)) {
            case 0:
            case 1:
            case 2:
                ok = s.folderStep();
                break;
            case 3:
            case 4:
            case 5:
            case 6:
                ok = s.targetStep();
                break;
            case 7:
            case 8:
            case 9:
                ok = s.externStep();
                break;
            case 10:
                ok = s.generateStep();
                break;
            default:
                ok = r.chance(1, 2) ? s.listModules() : s.mustFail({r.pick({Str("xyzzy"), Str("t"), Str("folders"), Str("TARGET")}), "list"}, "no such command");
                break;
        }
        if (!ok)
            return;
    }
    // All folders still hold what was put into them.
    for (auto& f : s.folders) {
        if (!s.mustPass({"folder", "set", f.first}, {s.settings}))
            return;
        s.current = f.first;
        if (!s.listTargets() || !s.listSelected())
            return;
    }
    distinct(s.history);
    maxOf("commands", (uint64_t) std::count(s.history.begin(), s.history.end(), ';'));
    if (wantSample())
        sample(s.history);
}

// One small project, edited, built and run from several folders.
namespace {
struct Project {
    Rng& r;
    Workspace& ws;
    int core = 7;         // what the library's function returns
    Str def[2];           // a setting from the module definitions, per program
    bool usesCore[2] = {true, false};
    std::map<Str, Folder> folders; // roots: 0, 1 are the programs, 2 the library
    std::map<Str, std::set<std::pair<int, Str>>> built; // per folder: program and configuration
    Str current, history;

    const char* name(int t) const {
        return t == 0 ? "one" : t == 1 ? "two" : "core";
    }
    void writeModules() {
        Str t = "#include <ply-build-repo/Module.h>\n\n";
        for (int i = 0; i < 3; i++) {
            t += Str("// [ply module=\"") + name(i) + "\"]\nvoid module_" + name(i) + "(ModuleArgs* args) {\n    args->buildTarget->targetType = BuildTargetType::" +
                 (i < 2 ? "EXE" : "Lib") + ";\n    args->addSourceFiles(\"" + name(i) + "\");\n";
            if (i == 2)
                t += "    args->addIncludeDir(Visibility::Public, \"core\");\n    args->buildTarget->setPreprocessorDefinition(Visibility::Public, \"HAVE_CORE\", \"1\");\n";
            else {
                t += "    args->buildTarget->setPreprocessorDefinition(Visibility::Private, \"SETTING\", \"" + def[i] + "\");\n";
                if (usesCore[i])
                    t += "    args->addTarget(Visibility::Private, \"core\");\n";
            }
            t += "}\n\n";
        }
        put(ws.dir + "/repos/app/app.modules.cpp", t);
    }
    void writeCore() {
        put(ws.dir + "/repos/app/core/core-fn.cpp", "int coreFn() {\n    return " + std::to_string(core) + ";\n}\n");
    }
    void writeAll() {
        put(ws.dir + "/repos/app/core/core-fn.h", "int coreFn();\n");
        writeCore();
        for (int i = 0; i < 2; i++)
            put(ws.dir + "/repos/app/" + name(i) + "/main.cpp",
                Str("#include <stdio.h>\n#if HAVE_CORE\n#include <core-fn.h>\n#else\nstatic int coreFn() {\n    return -1;\n}\n#endif\n#define STR2(x) #x\n#define STR(x) STR2(x)\n") +
                    "int main() {\n    printf(\"I am " + name(i) + " core %d setting %s\\n\", coreFn(), STR(SETTING));\n}\n");
        writeModules();
    }
    Str output(int t) const {
        return Str("I am ") + name(t) + " core " + std::to_string(usesCore[t] ? core : -1) + " setting " + def[t] + "\n";
    }
    bool reached(const Folder& f, int t) const {
        for (int x : f.roots)
            if (x == t || (t == 2 && x < 2 && usesCore[x]))
                return true;
        return false;
    }
    bool go(const std::vector<Str>& a, bool wantOk, Result* out = nullptr) {
        history += "; " + joinArgs(a);
        ctx(history);
        evals(1);
        Result x = ws.run(a, 300);
        VF_CHECKR(!x.crashed(), false, "crash", "[%s] crashed: %s; history: %s", joinArgs(a).c_str(), x.all().c_str(), history.c_str());
        VF_CHECKR((x.code == 0) == wantOk, false, "build-verdict", "[%s] should %s: %s; history: %s", joinArgs(a).c_str(), wantOk ? "succeed" : "fail",
                  x.all().c_str(), history.c_str());
        if (out)
            *out = x;
        return true;
    }
    // Which folder the listing says is there that was not
    bool checkFolders(Str* added = nullptr) {
        Result x;
        if (!go({"folder", "list"}, true, &x))
            return false;
        std::set<Str> got, extra;
        Str active;
        for (Str e : entries(x.out)) {
            size_t p = e.find(" (active)");
            if (p != Str::npos)
                active = e = e.substr(0, p);
            got.insert(e);
            if (!folders.count(e))
                extra.insert(e);
        }
        bool ok = got.size() == folders.size() + (added ? 1 : 0) && extra.size() == (added ? 1u : 0u);
        if (ok && added)
            *added = *extra.begin();
        Str want = added ? (ok ? *added : Str()) : folders.count(current) ? current : Str();
        VF_CHECKR(ok && active == want, false, "project-folders", "folders: %s; history: %s", esc(x.out).c_str(), history.c_str());
        return true;
    }
    bool checkRoots() {
        Result x;
        if (!go({"target", "list"}, true, &x))
            return false;
        const Folder& f = folders[current];
        std::vector<Str> want;
        for (int t : f.roots)
            want.push_back(Str(name(t)) + (t == f.active ? " (active)" : ""));
        VF_CHECKR(entries(x.out) == want, false, "project-targets", "targets of '%s': %s; want %d; history: %s", current.c_str(), esc(x.out).c_str(),
                  (int) want.size(), history.c_str());
        return true;
    }
    bool buildOrRun(int kind, int t, bool named, int how, const Str& config) {
        // kind: 0 build, 1 run, 2 run --nobuild; how: 0 plain, 1 --add, 2 --auto
        std::vector<Str> a{kind == 0 ? "build" : "run"};
        Str typed = r.chance(1, 4) ? Str("app.") + name(t) : Str(name(t));
        if (named)
            a.push_back(typed);
        if (how == 1)
            a.push_back("--add");
        if (how == 2)
            a.push_back("--auto");
        if (!config.empty())
            a.push_back("--config=" + config);
        if (kind == 2)
            a.push_back("--nobuild");
        Str cfg = config.empty() ? Str("Debug") : config;
        Str toCreate;
        Folder* f = folders.count(current) ? &folders[current] : nullptr;
        bool create = false, okay = true;
        Str newCurrent = current;
        if (how == 2) {
            std::vector<Str> m;
            for (auto& x : folders)
                if (std::find(x.second.roots.begin(), x.second.roots.end(), t) != x.second.roots.end())
                    m.push_back(x.first);
            if (!named || m.size() > 1)
                okay = false;
            else if (m.empty())
                create = true;
            else {
                newCurrent = m[0];
                f = &folders[newCurrent];
            }
        } else if (!f)
            okay = false;
        bool add = false;
        if (okay && !create) {
            if (!named) {
                t = f->active;
                if (t < 0)
                    okay = false;
            }
            if (okay && !reached(*f, t)) {
                if (how == 1)
                    add = true;
                else
                    okay = false;
            }
        }
        if (okay && t == 2)
            okay = false; // not a program
        bool nothingThere = okay && kind == 2 && (create || !built[newCurrent].count({t, cfg}));
        Result x;
        // With --nobuild, a program that was never built can't run.
        if (!go(a, okay && !nothingThere, &x))
            return false;
        if (!okay)
            return checkFolders() && (!folders.count(current) || checkRoots());
        if (create) {
            Str added;
            if (!checkFolders(&added))
                return false;
            folders[added].roots = {t};
            folders[added].active = t;
            newCurrent = added;
            count("folders made by --auto");
        } else if (add) {
            f->roots.push_back(t);
            f->active = t;
        }
        current = newCurrent;
        if (kind != 2)
            built[current].insert({t, cfg});
        if (kind == 1) {
            VF_CHECKR(x.out.find(output(t)) != Str::npos, false, "stale-program", "[%s] printed %s, not %s; history: %s", joinArgs(a).c_str(),
                      esc(x.out.size() > 500 ? x.out.substr(x.out.size() - 500) : x.out).c_str(), output(t).c_str(), history.c_str());
            count("programs run");
        }
        if (kind == 0)
            count("programs built");
        return checkFolders() && checkRoots();
    }
};
} // namespace

VF_WORKLOAD(projects, 16, 320) {
    Workspace ws{"pr"};
    Project p{r, ws};
    p.def[0] = "a", p.def[1] = "b";
    p.writeAll();
    unsigned n = 0;
    bool ok = true;
    if (r.chance(1, 2)) {
        ok = p.go({"folder", "create", "one"}, true);
        p.folders["one"];
        p.current = "one";
    }
    unsigned steps = (unsigned) r.range(6, 16);
    for (; ok && n < steps; n++) {
        static const std::vector<Str> cfgs{"", "", "", "Debug", "RelWithDebInfo", "RelWithAsserts"};
        switch (r.below(14)) {
            case 0: {
                Str nm = r.pick({Str("one"), Str("two"), Str("proj x")});
                bool was = p.folders.count(nm) != 0;
                ok = p.go({"folder", "create", nm}, !was);
                if (!was) {
                    p.folders[nm];
                    p.current = nm;
                }
                break;
            }
            case 1:
                if (!p.folders.empty()) {
                    Str nm = std::next(p.folders.begin(), r.below((uint32_t) p.folders.size()))->first;
                    if (r.chance(1, 3)) {
                        ok = p.go({"folder", "delete", nm}, true);
                        p.folders.erase(nm);
                        p.built.erase(nm);
                    } else {
                        ok = p.go({"folder", "set", nm}, true);
                        p.current = nm;
                    }
                }
                break;
            case 2:
                p.core++;
                p.history += "; <edit core>";
                p.writeCore();
                break;
            case 3: {
                int t = (int) r.below(2);
                p.history += "; <edit modules>";
                if (r.chance(1, 2))
                    p.usesCore[t] = !p.usesCore[t];
                // Always longer, so that the change is seen whatever the clock's resolution
                p.def[t] += r.pick({"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"});
                p.writeModules();
                break;
            }
            case 4:
            case 5: {
                if (!p.folders.count(p.current))
                    break;
                Folder& f = p.folders[p.current];
                int t = (int) r.below(3);
                auto it = std::find(f.roots.begin(), f.roots.end(), t);
                if (r.chance(1, 2)) {
                    ok = p.go({"target", "add", p.name(t)}, true);
                    if (it == f.roots.end())
                        f.roots.push_back(t);
                    f.active = t;
                } else {
                    ok = p.go({"target", "remove", p.name(t)}, it != f.roots.end());
                    if (it != f.roots.end())
                        f.roots.erase(it);
                    if (f.active == t) {
                        // Which target is active is not settled now: choose one.
                        if (f.roots.empty()) {
                            f.roots.push_back(0);
                            f.active = 0;
                            ok = ok && p.go({"target", "add", "one"}, true);
                        } else {
                            f.active = f.roots[0];
                            ok = ok && p.go({"target", "set", p.name(f.active)}, true);
                        }
                    }
                }
                ok = ok && p.checkRoots();
                break;
            }
            default: {
                int kind = r.chance(1, 3) ? 0 : r.chance(5, 6) ? 1 : 2, how = (int) r.below(3);
                int t = (int) r.below(how == 0 && r.chance(1, 4) ? 3 : 2);
                ok = p.buildOrRun(kind, t, r.chance(3, 4), how, r.pick(cfgs));
                break;
            }
        }
    }
    if (!ok)
        return;
    distinct(p.history);
    if (wantSample())
        sample(p.history);
}

VF_MAIN()
