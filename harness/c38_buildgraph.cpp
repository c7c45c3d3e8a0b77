// Build descriptions: random graphs of targets and externs, instantiated, propagated and written; the text is read back and compared with a
// model, and some projects are configured, built and run.
#include "plyvf.h"
#include "fsvf.h"
#include <ply-build-common/Core.h>
#include <ply-build-repo/ProjectInstantiator.h>
#include <ply-build-repo/ProjectInstantiationEnv.h>
#include <ply-build-repo/ModuleArgs.h>
#include <ply-build-repo/Repo.h>
#include <ply-build-repo/ErrorHandler.h>
#include <ply-build-target/CMakeLists.h>
#include <ply-build-target/TargetError.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace ply;
using build::BuildTargetType;
using build::Visibility;
using vf::Rng;
using vf::Str;

namespace {
using Set = std::set<Str>;
struct Node {
    Str name;
    bool isExtern = false;
    bool inChild = false; // Lives in the child repo
    bool qualified = false;
    BuildTargetType type = BuildTargetType::Lib;
    std::vector<std::pair<bool, u32>> deps; // public?, index
    // Includes, as folders under its root; true if public
    std::vector<std::pair<bool, Str>> incs;
    std::vector<std::pair<bool, std::pair<Str, Str>>> defs;
    std::vector<Str> libs, dlls, frameworks;
    bool exceptions = false, publicExceptions = false;
    std::vector<std::pair<Str, bool>> roots; // source folders: name, recursive
    std::map<Str, std::vector<Str>> files;   // root -> all files beneath
    Str prefix;                              // dynamicLinkPrefix
};
struct World {
    std::vector<Node> nodes;
    Str dir; // ends with a slash
    std::vector<u32> roots;
    bool shared = false;
};
Str lower(Str s) {
    for (char& c : s)
        if (c >= 'A' && c <= 'Z')
            c += 32;
    return s;
}
Str extOf(const Str& f) {
    size_t slash = f.rfind('/'), dot = f.rfind('.');
    if (dot == Str::npos || (slash != Str::npos && dot < slash))
        return "";
    return f.substr(dot);
}
bool endsWith(const Str& s, const char* e) {
    Str t = e;
    return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
}
bool isSource(const Str& f) {
    Str e = lower(extOf(f));
    return !endsWith(f, ".modules.cpp") && (e == ".c" || e == ".cpp");
}
bool participates(const Str& f) {
    return isSource(f) || (!endsWith(f, ".modules.cpp") && lower(extOf(f)) == ".h");
}
bool nonParticipating(const Str& f) {
    return endsWith(f, ".modules.cpp") || lower(extOf(f)) == ".natvis";
}
// The files of a node's source folders that its folders' recursion reaches
std::vector<Str> reached(const Node& n, bool (*want)(const Str&)) {
    std::vector<Str> out;
    for (auto& root : n.roots) {
        auto it = n.files.find(root.first);
        if (it == n.files.end())
            continue;
        for (const Str& f : it->second)
            if (want(f) && (root.second || f.find('/') == Str::npos))
                out.push_back(root.first + "/" + f);
    }
    return out;
}
bool hasSource(const Node& n) {
    return !reached(n, isSource).empty();
}
BuildTargetType finalType(const World& w, u32 i) {
    const Node& n = w.nodes[i];
    BuildTargetType t = n.type;
    if (t == BuildTargetType::Lib) {
        if (w.shared && i == w.roots[0])
            t = BuildTargetType::DLL;
        else if (w.shared && !n.prefix.empty())
            t = BuildTargetType::ObjectLib;
    }
    if (!hasSource(n) && (t == BuildTargetType::Lib || t == BuildTargetType::ObjectLib))
        t = BuildTargetType::HeaderOnly;
    return t;
}
void publicReach(const World& w, u32 i, std::set<u32>& out) {
    if (!out.insert(i).second)
        return;
    for (auto& d : w.nodes[i].deps)
        if (d.first)
            publicReach(w, d.second, out);
}
// What a node can see of others: its dependencies and what they pass on
std::set<u32> visible(const World& w, u32 i) {
    std::set<u32> out;
    for (auto& d : w.nodes[i].deps)
        publicReach(w, d.second, out);
    return out;
}
void allReach(const World& w, u32 i, std::set<u32>& out) {
    for (auto& d : w.nodes[i].deps)
        if (out.insert(d.second).second)
            allReach(w, d.second, out);
}
Str rootOf(const World& w, u32 i) {
    return w.dir + (w.nodes[i].inChild ? "child/" : "ws/repos/plywood/src/") + w.nodes[i].name + "/";
}

// A registry of functions standing in for the module files of repos.
const World* current = nullptr;
build::ExternResult externStub(build::ExternCommand cmd, build::ExternProviderArgs* args) {
    if (cmd != build::ExternCommand::Instantiate)
        return {build::ExternResult::Installed, ""};
    for (const Node& n : current->nodes)
        if (n.isExtern && n.name == vf::str(args->provider->extern_->name)) {
            for (auto& i : n.incs)
                args->dep->includeDirs.append(vf::view(i.second));
            for (auto& d : n.defs)
                args->dep->defines.append({vf::view(d.second.first), vf::view(d.second.second)});
            for (auto& l : n.libs)
                args->dep->libs.append(vf::view(l));
            for (auto& l : n.dlls)
                args->dep->dlls.append(vf::view(l));
            for (auto& f : n.frameworks)
                args->dep->frameworks.append(vf::view(f));
            if (n.publicExceptions)
                args->dep->abstractFlags.append("exceptions");
            return {build::ExternResult::Instantiated, ""};
        }
    return {build::ExternResult::Unknown, ""};
}
struct DescribeOwner {
    u32 index;
};
void describe(build::ModuleArgs* args) {
    u32 i = 0;
    while (current->nodes[i].isExtern || current->nodes[i].name != vf::str(args->targetInst->name))
        i++;
    const Node& n = current->nodes[i];
    args->buildTarget->targetType = n.type;
    if (!n.prefix.empty())
        args->buildTarget->dynamicLinkPrefix = vf::view(n.prefix);
    for (auto& root : n.roots)
        args->addSourceFiles(vf::view(root.first), root.second);
    for (auto& inc : n.incs)
        args->addIncludeDir(inc.first ? Visibility::Public : Visibility::Private, vf::view(inc.second));
    for (auto& def : n.defs)
        args->setPreprocessorDefinition(def.first ? Visibility::Public : Visibility::Private, vf::view(def.second.first), vf::view(def.second.second));
    if (n.exceptions)
        args->buildTarget->privateAbstractFlags.append("exceptions");
    if (n.publicExceptions) {
        args->buildTarget->dep->abstractFlags.append("exceptions");
        args->buildTarget->privateAbstractFlags.append("exceptions");
    }
    for (auto& d : n.deps) {
        const Node& c = current->nodes[d.second];
        Str name = (c.qualified ? Str(c.inChild ? "childrepo." : "mainrepo.") : Str()) + c.name;
        if (c.isExtern)
            args->addExtern(d.first ? Visibility::Public : Visibility::Private, vf::view(name));
        else
            args->addTarget(d.first ? Visibility::Public : Visibility::Private, vf::view(name));
    }
}
struct Repos {
    build::Repo main, child;
    build::ProjectInstantiationEnv env;
    Repos(const World& w) {
        main.repoName = "mainrepo";
        child.repoName = "childrepo";
        main.childRepos.append(&child);
        env.isGenerating = true;
        env.buildFolderPath = vf::view(w.dir + "out/");
        env.config = "Debug";
        for (u32 i = 0; i < w.nodes.size(); i++) {
            const Node& n = w.nodes[i];
            build::Repo& repo = n.inChild ? child : main;
            if (n.isExtern)
                repo.addExternProvider(vf::view(n.name), "stub", externStub);
            else
                repo.addTargetInstantiator(new build::TargetInstantiator{vf::view(n.name), vf::view(rootOf(w, i)), &repo, describe});
        }
        for (build::Repo* repo : {&main, &child})
            for (build::ExternProvider* p : repo->externProviders)
                env.externSelectors.append(p);
    }
};
Str generate(const World& w, bool bootstrap, u32* numTargets = nullptr) {
    current = &w;
    vf::Str out;
    {
        Repos repos{w};
        build::ProjectInstantiationResult result;
        build::ProjectInstantiator inst;
        inst.env = &repos.env;
        inst.result = &result;
        for (u32 k = 0; k < w.roots.size(); k++) {
            const Node& n = w.nodes[w.roots[k]];
            const build::TargetInstantiator* ti = repos.main.findTargetInstantiatorRecursive(vf::view(n.name));
            VF_CHECKR(ti && vf::str(ti->name) == n.name, out, "find", "target %s not found from the main repo", n.name.c_str());
            build::Dependency* dep = inst.instantiate(ti, w.shared && k == 0);
            VF_CHECKR(dep && dep->buildTarget, out, "instantiate", "%s", n.name.c_str());
        }
        inst.propagateAllDependencies();
        inst.propagateAllDependencies();
        VF_CHECKR(result.isValid && !result.unselectedExterns && !result.uninstalledProviders, out, "externs", "an extern is missing");
        if (numTargets)
            *numTargets = result.dependencies.numItems();
        MemOutStream mem;
        build::writeCMakeLists(&mem, "proj", vf::view(w.dir + "out/"), &result, bootstrap);
        out = vf::str(mem.moveToString());
    }
    current = nullptr;
    return out;
}

// Just enough of CMake's language: commands with quoted and unquoted arguments.
struct Command {
    Str name;
    std::vector<Str> args;
};
bool parseCMake(const Str& t, std::vector<Command>& out) {
    size_t i = 0;
    while (i < t.size()) {
        if (t[i] == '\n' || t[i] == ' ') {
            i++;
            continue;
        }
        if (t[i] == '#') {
            while (i < t.size() && t[i] != '\n')
                i++;
            continue;
        }
        Command c;
        while (i < t.size() && (isalnum((u8) t[i]) || t[i] == '_'))
            c.name += t[i++];
        if (c.name.empty() || i >= t.size() || t[i] != '(')
            return false;
        i++;
        for (;;) {
            while (i < t.size() && (t[i] == ' ' || t[i] == '\n'))
                i++;
            if (i >= t.size())
                return false;
            if (t[i] == ')') {
                i++;
                break;
            }
            Str a;
            if (t[i] == '"') {
                i++;
                while (i < t.size() && t[i] != '"') {
                    if (t[i] == '\\') {
                        i++;
                        if (i >= t.size() || !strchr("\\\"$;#() ^@", t[i]))
                            return false;
                    }
                    a += t[i++];
                }
                if (i >= t.size())
                    return false;
                i++;
            } else
                while (i < t.size() && t[i] != ' ' && t[i] != '\n' && t[i] != ')') {
                    if (t[i] == '"' || t[i] == '(')
                        return false;
                    a += t[i++];
                }
            c.args.push_back(a);
        }
        out.push_back(c);
    }
    return true;
}
struct Block {
    Str kind;
    std::vector<Str> sources, nonPart, includes, defines, libs, objects, dlls, frameworks;
    bool exceptions = false, exceptionsSet = false;
};
Str randName(Rng& r) {
    static const char* words[] = {"core", "net", "gfx", "ui", "math", "app", "util", "Core", "text-in", "io_2", "x"};
    return words[r.below(11)] + (r.chance(1, 3) ? Str() : vf::fmt("%u", r.below(30)));
}
Str randFile(Rng& r) {
    static const char* stems[] = {"Main", "a", "b c", "Util", "read-me", "x(1)", "lib+", "it's", "n#1", "v1.2", "Foo.modules"};
    static const char* exts[] = {".cpp", ".h", ".c", ".CPP", ".natvis", ".txt", ".H", "", ".md", ".cpp", ".h", ".hpp"};
    Str f;
    for (u32 i = r.below(3); i > 0; i--)
        f += (r.chance(1, 2) ? Str("sub") : vf::fmt("d %u", r.below(3))) + "/";
    return f + stems[r.below(11)] + (r.chance(1, 2) ? vf::fmt("%u", r.below(9)) : Str()) + exts[r.below(12)];
}
World makeWorld(Rng& r, const Str& dir, bool writeFiles) {
    World w;
    w.dir = dir;
    u32 n = 1 + r.below(r.chance(1, 6) ? 24 : 8);
    w.shared = r.chance(1, 6);
    Set names;
    u32 density = 1 + r.below(4);
    for (u32 i = 0; i < n; i++) {
        Node x;
        do
            x.name = randName(r);
        while (names.count(x.name));
        names.insert(x.name);
        x.isExtern = i + 1 < n && r.chance(1, 5);
        x.inChild = i + 1 < n && r.chance(1, 3);
        x.qualified = r.chance(1, 4);
        if (x.isExtern) {
            for (u32 k = r.below(3); k > 0; k--)
                x.incs.push_back({true, vf::fmt("/opt/%s/inc%u", x.name.c_str(), k)});
            for (u32 k = r.below(3); k > 0; k--)
                x.libs.push_back(r.chance(1, 4) ? vf::fmt("${LIB_%u_%u}", i, k) : vf::fmt("/opt/%s/lib%u.a", x.name.c_str(), k));
            for (u32 k = r.below(2); k > 0; k--)
                x.dlls.push_back(vf::fmt("/opt/%s/dyn%u.so", x.name.c_str(), k));
            if (writeFiles && r.chance(1, 3)) // Where nothing is really built
                for (u32 k = r.below(3); k > 0; k--)
                    x.frameworks.push_back(vf::fmt("Frame%u", r.below(4)) + vf::fmt("_%u", k));
            x.publicExceptions = r.chance(1, 10);
        } else {
            x.type = i + 1 == n ? (r.chance(3, 4) ? BuildTargetType::EXE : BuildTargetType::Lib)
                                : r.chance(1, 8) ? BuildTargetType::HeaderOnly : BuildTargetType::Lib;
            for (u32 j = 0; j < i; j++)
                if (w.nodes[j].type != BuildTargetType::EXE && (!x.inChild || w.nodes[j].inChild) && r.chance(density, 5))
                    x.deps.push_back({r.chance(1, 2), j});
            for (u32 k = x.deps.size(); k > 1; k--)
                std::swap(x.deps[k - 1], x.deps[r.below(k)]);
            for (u32 k = r.below(4); k > 0; k--)
                x.incs.push_back({r.chance(1, 2), vf::fmt(r.chance(1, 6) ? "inc %u" : "inc%u", k)});
            for (u32 k = r.below(3); k > 0; k--) {
                Str root = r.chance(1, 4) ? vf::fmt("code/part%u", k) : vf::fmt("code%u", k);
                x.roots.push_back({root, r.chance(4, 5)});
                Set fs;
                for (u32 f = r.below(7); f > 0; f--)
                    fs.insert(randFile(r));
                // No file where another needs a folder
                for (const Str& f : fs)
                    x.files[root].push_back(f);
            }
            x.exceptions = r.chance(1, 5);
            x.publicExceptions = r.chance(1, 10);
            if (w.shared && r.chance(1, 2))
                x.prefix = vf::fmt("PFX%u", i);
        }
        for (u32 k = r.below(4); k > 0; k--)
            x.defs.push_back({x.isExtern || r.chance(1, 2), {vf::fmt("DEF_%u_%u", i, k), r.chance(1, 3) ? Str() : vf::fmt("%u", r.below(1000))}});
        w.nodes.push_back(x);
    }
    // The last is the main root; others may come first
    w.roots.push_back(n - 1);
    if (!w.shared)
        for (u32 i = 0; i + 1 < n; i++)
            if (!w.nodes[i].isExtern && r.chance(1, 8)) {
                if (r.chance(1, 2))
                    w.roots.push_back(i);
                else
                    w.roots.insert(w.roots.begin(), i);
            }
    if (writeFiles)
        for (u32 i = 0; i < n; i++)
            for (auto& rf : w.nodes[i].files) {
                for (const Str& f : rf.second) {
                    Str path = rootOf(w, i) + rf.first + "/" + f;
                    for (size_t at = w.dir.size(); (at = path.find('/', at)) != Str::npos; at++)
                        mkdir(path.substr(0, at).c_str(), 0755);
                    std::ofstream{path} << "\n";
                }
                Str path = rootOf(w, i) + rf.first + "/";
                for (size_t at = w.dir.size(); (at = path.find('/', at)) != Str::npos; at++)
                    mkdir(path.substr(0, at).c_str(), 0755);
            }
    return w;
}
Str join(const std::vector<Str>& v) {
    Str s;
    for (auto& x : v)
        s += x + " | ";
    return s;
}
Set toSet(const std::vector<Str>& v) {
    return Set(v.begin(), v.end());
}
void setWorkspace(const Str& path) {
    static char env[4096];
    snprintf(env, sizeof(env), "VF_WORKSPACE=%s", path.c_str());
    putenv(env);
}
void removeTree(const Str& dir) {
    vf::fs::wipe(dir.substr(0, dir.size() - 1));
}
} // namespace

VF_WORKLOAD(graphs, 1200, 25000) {
    Str dir = vf::scratch() + vf::fmt("/g%u/", (u32) idx);
    mkdir(dir.c_str(), 0755);
    s64 live = vf::liveBytes();
    {
        World w = makeWorld(r, dir, true);
        bool bootstrap = r.chance(1, 4);
        setWorkspace(dir + "ws/");
        std::vector<Str> clashes;
        build::TargetError::callback_ = [&](StringView m) { clashes.push_back(vf::str(m)); };
        std::vector<Str> errors;
        build::ErrorHandler::current = [&](build::ErrorHandler::Level, HybridString&& m) { errors.push_back(vf::str(m.view())); };
        u32 num = 0;
        Str text = generate(w, bootstrap, &num);
        Str again = generate(w, bootstrap);
        build::TargetError::callback_ = {};
        build::ErrorHandler::current = {};
        VF_CHECK(clashes.empty() && errors.empty(), "errors", "unexpected: %s%s", join(clashes).c_str(), join(errors).c_str());
        VF_CHECK(text == again, "same", "generating twice gives different text");
        std::vector<Command> cmds;
        VF_CHECK(parseCMake(text, cmds), "syntax", "not CMake: %s", text.substr(0, 3000).c_str());

        // Expected set of targets
        std::set<u32> used;
        for (u32 root : w.roots) {
            used.insert(root);
            allReach(w, root, used);
        }
        VF_CHECK(num == used.size(), "instantiated", "%u dependencies instantiated, not %zu", num, used.size());
        std::map<Str, Str> vars;
        vars["WORKSPACE_FOLDER"] = "<<<WORKSPACE_FOLDER>>>";
        std::map<Str, Block> blocks;
        std::map<Str, std::vector<Str>> lists, nonPart;
        std::map<Str, Str> found; // What find_library() sets: variable -> framework
        auto sub = [&](Str a) {
            for (auto& kv : std::map<Str, Str>{{"${SRC_FOLDER}", dir + "ws/repos/plywood/src/"}, {"${BUILD_FOLDER}", dir + "out/"}})
                if (bootstrap && a.compare(0, kv.first.size(), kv.first) == 0)
                    a = kv.second + a.substr(kv.first.size());
            return a;
        };
        for (Command& c : cmds) {
            VF_CHECK(c.name == "include" || !c.args.empty(), "syntax", "%s without arguments", c.name.c_str());
            if (c.name == "SetSourceFolders" || c.name == "SetNonParticipatingFiles") {
                auto& l = c.name == "SetSourceFolders" ? lists[c.args[0]] : nonPart[c.args[0]];
                VF_CHECK(c.args.size() >= 2, "syntax", "%s without a root", c.name.c_str());
                for (size_t k = 2; k < c.args.size(); k++)
                    l.push_back(sub(c.args[1]) + "/" + c.args[k]);
            } else if (c.name == "add_library" || c.name == "add_executable" || c.name == "add_custom_target") {
                VF_CHECK(!blocks.count(c.args[0]), "twice", "%s is described twice", c.args[0].c_str());
                Block& b = blocks[c.args[0]];
                b.kind = c.name;
                Set seen;
                for (size_t k = 1; k < c.args.size(); k++) {
                    Str a = c.args[k];
                    if (a == "OBJECT" || a == "SHARED" || a == "SOURCES")
                        b.kind += " " + a;
                    else if (a.compare(0, 17, "$<TARGET_OBJECTS:") == 0)
                        b.objects.push_back(a.substr(17, a.size() - 18));
                    else {
                        VF_CHECK(a.size() > 3 && a[0] == '$' && a[1] == '{', "sources", "%s lists %s", c.args[0].c_str(), a.c_str());
                        Str v = a.substr(2, a.size() - 3);
                        VF_CHECK(lists.count(v) || nonPart.count(v), "sources", "%s isn't defined before %s", v.c_str(), c.args[0].c_str());
                        if (seen.insert(v).second) {
                            b.sources.insert(b.sources.end(), lists[v].begin(), lists[v].end());
                            b.nonPart.insert(b.nonPart.end(), nonPart[v].begin(), nonPart[v].end());
                        }
                    }
                }
            } else if (c.name == "target_include_directories" || c.name == "target_compile_definitions" || c.name == "target_link_libraries") {
                VF_CHECK(blocks.count(c.args[0]) && c.args.size() >= 2 && c.args[1] == "PRIVATE", "syntax", "%s(%s ...)", c.name.c_str(), c.args[0].c_str());
                Block& b = blocks[c.args[0]];
                auto& l = c.name == "target_include_directories" ? b.includes : c.name == "target_compile_definitions" ? b.defines : b.libs;
                for (size_t k = 2; k < c.args.size(); k++) {
                    Str a = c.args[k], v = a.compare(0, 2, "${") == 0 ? a.substr(2, a.size() - 3) : Str();
                    if (found.count(v))
                        b.frameworks.push_back(found[v]);
                    else
                        l.push_back(sub(a));
                }
            } else if (c.name == "find_library") {
                VF_CHECK(c.args.size() == 2 && (!found.count(c.args[0]) || found[c.args[0]] == c.args[1]), "frameworks", "%s names two", c.args[0].c_str());
                found[c.args[0]] = c.args[1];
            } else if (c.name == "AddDLLCopyStep") {
                for (size_t k = 1; k < c.args.size(); k++)
                    blocks[c.args[0]].dlls.push_back(c.args[k]);
            } else if (c.name == "EnableCppExceptions") {
                Block& b = blocks[c.args[0]];
                VF_CHECK(c.args.size() == 2 && !b.exceptionsSet, "syntax", "exceptions of %s", c.args[0].c_str());
                b.exceptions = c.args[1] == "TRUE";
                b.exceptionsSet = true;
            }
        }
        for (u32 i : used) {
            const Node& n = w.nodes[i];
            if (n.isExtern) {
                VF_CHECK(!blocks.count(n.name), "extern", "extern %s is a target", n.name.c_str());
                continue;
            }
            VF_CHECK(blocks.count(n.name), "missing", "%s isn't described", n.name.c_str());
            Block& b = blocks[n.name];
            BuildTargetType t = finalType(w, i);
            Str kind = t == BuildTargetType::HeaderOnly  ? "add_custom_target SOURCES"
                       : t == BuildTargetType::Lib       ? "add_library"
                       : t == BuildTargetType::ObjectLib ? "add_library OBJECT"
                       : t == BuildTargetType::DLL       ? "add_library SHARED"
                                                         : "add_executable";
            VF_CHECK(b.kind == kind, "kind", "%s: %s, not %s", n.name.c_str(), b.kind.c_str(), kind.c_str());
            Set srcs, nons;
            for (const Str& f : reached(n, participates))
                srcs.insert(rootOf(w, i) + f);
            for (const Str& f : reached(n, nonParticipating))
                nons.insert(rootOf(w, i) + f);
            if (!hasSource(n) && (t == BuildTargetType::EXE || t == BuildTargetType::DLL))
                srcs.insert(dir + "out/codegen/" + n.name + "/Null.cpp");
            VF_CHECK(toSet(b.sources) == srcs && b.sources.size() == srcs.size(), "sources", "%s: %s, not %s", n.name.c_str(), join(b.sources).c_str(),
                     join(std::vector<Str>(srcs.begin(), srcs.end())).c_str());
            VF_CHECK(toSet(b.nonPart) == nons && b.nonPart.size() == nons.size(), "other-files", "%s: %s, not %s", n.name.c_str(), join(b.nonPart).c_str(),
                     join(std::vector<Str>(nons.begin(), nons.end())).c_str());
            if (t == BuildTargetType::HeaderOnly) {
                VF_CHECK(b.includes.empty() && b.defines.empty() && b.libs.empty(), "header-only", "%s has compile settings", n.name.c_str());
                continue;
            }
            Set incs, defs;
            bool exc = n.exceptions || n.publicExceptions;
            for (auto& x : n.incs)
                incs.insert(rootOf(w, i) + x.second);
            for (auto& x : n.defs)
                defs.insert(x.second.first + "=" + x.second.second);
            std::set<u32> vis = visible(w, i);
            for (u32 j : vis) {
                const Node& c = w.nodes[j];
                for (auto& x : c.incs)
                    if (x.first)
                        incs.insert(c.isExtern ? x.second : rootOf(w, j) + x.second);
                for (auto& x : c.defs)
                    if (x.first)
                        defs.insert(x.second.first + "=" + x.second.second);
                exc = exc || c.publicExceptions;
            }
            if (w.shared) {
                std::set<u32> both = vis;
                both.insert(i);
                for (u32 j : both)
                    if (!w.nodes[j].prefix.empty())
                        defs.insert(w.nodes[j].prefix + "_EXPORTING=1");
            }
            VF_CHECK(toSet(b.includes) == incs && b.includes.size() == incs.size(), "includes", "%s: %s, not %s", n.name.c_str(), join(b.includes).c_str(),
                     join(std::vector<Str>(incs.begin(), incs.end())).c_str());
            VF_CHECK(toSet(b.defines) == defs && b.defines.size() == defs.size(), "defines", "%s: %s, not %s", n.name.c_str(), join(b.defines).c_str(),
                     join(std::vector<Str>(defs.begin(), defs.end())).c_str());
            VF_CHECK(b.exceptionsSet && b.exceptions == exc, "exceptions", "%s: exceptions %d, not %d", n.name.c_str(), b.exceptions, exc);
            if (t != BuildTargetType::EXE && t != BuildTargetType::DLL) {
                VF_CHECK(b.libs.empty() && b.dlls.empty(), "libs", "%s links %s", n.name.c_str(), join(b.libs).c_str());
                continue;
            }
            std::set<u32> all;
            allReach(w, i, all);
            Set libs, dlls, objects, frameworks;
            for (u32 j : all) {
                const Node& c = w.nodes[j];
                libs.insert(c.libs.begin(), c.libs.end());
                dlls.insert(c.dlls.begin(), c.dlls.end());
                frameworks.insert(c.frameworks.begin(), c.frameworks.end());
                if (!c.isExtern && finalType(w, j) == BuildTargetType::ObjectLib)
                    objects.insert(c.name);
                else if (!c.isExtern && finalType(w, j) != BuildTargetType::HeaderOnly)
                    libs.insert(c.name);
            }
            VF_CHECK(toSet(b.libs) == libs && b.libs.size() == libs.size(), "libs", "%s: %s, not %s", n.name.c_str(), join(b.libs).c_str(),
                     join(std::vector<Str>(libs.begin(), libs.end())).c_str());
            VF_CHECK(toSet(b.frameworks) == frameworks && b.frameworks.size() == frameworks.size(), "frameworks", "%s: %s", n.name.c_str(), join(b.frameworks).c_str());
            VF_CHECK(toSet(b.objects) == objects && b.objects.size() == objects.size(), "objects", "%s: %s", n.name.c_str(), join(b.objects).c_str());
            VF_CHECK(toSet(b.dlls) == dlls && b.dlls.size() == dlls.size(), "dlls", "%s: %s", n.name.c_str(), join(b.dlls).c_str());
            // A library comes before the ones it uses
            std::map<Str, size_t> at;
            for (size_t k = 0; k < b.libs.size(); k++)
                at[b.libs[k]] = k;
            for (u32 j : all) {
                if (!at.count(w.nodes[j].name))
                    continue;
                std::set<u32> below;
                allReach(w, j, below);
                for (u32 k : below) {
                    std::vector<Str> ls = w.nodes[k].libs;
                    ls.push_back(w.nodes[k].name);
                    for (const Str& l : ls)
                        VF_CHECK(!at.count(l) || at[l] > at[w.nodes[j].name], "order", "%s links %s before its user %s", n.name.c_str(), l.c_str(),
                                 w.nodes[j].name.c_str());
                }
            }
        }
        size_t targets = 0;
        for (u32 i : used)
            targets += !w.nodes[i].isExtern;
        VF_CHECK(blocks.size() == targets, "extra", "%zu targets described, not %zu", blocks.size(), targets);
        vf::maxOf("targets", (double) targets);
        vf::count("targets", targets);
        vf::distinct(vf::hashStr(text));
        vf::evals(targets);
    }
    removeTree(dir);
    static u32 runs = 0; // The first cases of a process allocate what stays
    VF_CHECK(runs++ < 4 || vf::liveBytes() == live, "leak", "%lld bytes", (long long) (vf::liveBytes() - live));
}

// Two definitions that clash are reported, and the target's own value stands.
VF_WORKLOAD(clashes, 1000, 10000) {
    u32 n = 2 + r.below(5);
    std::vector<std::unique_ptr<build::Dependency>> deps;
    std::vector<std::map<Str, Str>> priv(n), pub(n);
    std::vector<std::vector<std::pair<bool, u32>>> edges(n);
    for (u32 i = 0; i < n; i++) {
        deps.emplace_back(new build::Dependency);
        deps[i]->buildTarget = new build::BuildTarget{deps[i].get()};
        deps[i]->buildTarget->name = vf::view(vf::fmt("t%u", i));
        for (u32 k = r.below(4); k > 0; k--) {
            Str key = vf::fmt("K%u", r.below(4)), value = r.chance(1, 5) ? Str() : vf::fmt("%u", r.below(3));
            if (pub[i].count(key) || priv[i].count(key)) {
                // A private definition may be replaced, and made public
                if (!pub[i].count(key)) {
                    bool p = r.chance(1, 2);
                    bool fresh = deps[i]->buildTarget->setPreprocessorDefinition(p ? Visibility::Public : Visibility::Private, vf::view(key), vf::view(value));
                    VF_CHECK(!fresh, "define-twice", "%s is said to be new", key.c_str());
                    priv[i][key] = value;
                    if (p)
                        pub[i][key] = value;
                }
                continue;
            }
            bool p = r.chance(1, 2);
            bool fresh = deps[i]->buildTarget->setPreprocessorDefinition(p ? Visibility::Public : Visibility::Private, vf::view(key), vf::view(value));
            VF_CHECK(fresh, "define", "%s isn't said to be new", key.c_str());
            priv[i][key] = value;
            if (p)
                pub[i][key] = value;
        }
        for (u32 j = 0; j < i; j++)
            if (r.chance(1, 2)) {
                bool p = r.chance(1, 2);
                VF_CHECK(deps[i]->addDependency(p ? Visibility::Public : Visibility::Private, deps[j].get()), "add", "a new dependency is said to be known");
                if (r.chance(1, 4)) {
                    // Named again: public wins
                    bool q = r.chance(1, 2);
                    VF_CHECK(!deps[i]->addDependency(q ? Visibility::Public : Visibility::Private, deps[j].get()), "add-again", "a known dependency is said to be new");
                    p = p || q;
                }
                edges[i].push_back({p, j});
            }
    }
    u32 want = 0, got = 0;
    for (u32 i = 0; i < n; i++)
        for (auto& e : edges[i]) {
            for (u32 pass = 0; pass < (e.first ? 2u : 1u); pass++) {
                auto& mine = pass ? pub[i] : priv[i];
                for (auto& kv : pub[e.second])
                    if (!mine.count(kv.first))
                        mine[kv.first] = kv.second;
                    else if (mine[kv.first] != kv.second)
                        want++;
            }
        }
    Set keys;
    build::TargetError::callback_ = [&](StringView m) {
        got++;
        keys.insert(vf::str(m));
    };
    for (u32 i = n; i > 0; i--)
        build::propagateDependencyProperties(deps[i - 1].get());
    build::TargetError::callback_ = {};
    VF_CHECK((want != 0) == (got != 0), "clash-reported", "%u clashes, %u reports", want, got);
    for (u32 i = 0; i < n; i++)
        for (u32 pass = 0; pass < 2; pass++) {
            std::map<Str, Str> m;
            for (const auto& d : pass ? deps[i]->defines : deps[i]->buildTarget->privateDefines) {
                VF_CHECK(!m.count(vf::str(d.key)), "define-listed-twice", "%s", vf::str(d.key).c_str());
                m[vf::str(d.key)] = vf::str(d.value);
            }
            VF_CHECK(m == (pass ? pub[i] : priv[i]), "defines", "the %s definitions of t%u differ", pass ? "public" : "private", i);
        }
    vf::count("clashes", want);
    vf::evals(n);
    vf::distinct(r.u64());
}

// Names of targets and externs are looked up in a repo and the repos below it, however they share children.
VF_WORKLOAD(lookup, 1500, 20000) {
    u32 n = 1 + r.below(6);
    std::vector<std::unique_ptr<build::Repo>> repos;
    std::vector<std::vector<u32>> kids(n);
    std::vector<Set> targets(n), externs(n);
    std::vector<Str> errors;
    build::ErrorHandler::current = [&](build::ErrorHandler::Level, HybridString&& m) { errors.push_back(vf::str(m.view())); };
    for (u32 i = 0; i < n; i++) {
        repos.emplace_back(new build::Repo);
        repos[i]->repoName = vf::view(vf::fmt("repo%u", i));
    }
    for (u32 i = 0; i < n; i++) {
        for (u32 k = r.below(3); k > 0; k--) {
            u32 j = r.below(n); // Cycles too
            kids[i].push_back(j);
            repos[i]->childRepos.append(repos[j].get());
        }
        for (u32 k = r.below(5); k > 0; k--) {
            Str name = vf::fmt("mod-%u", r.below(9));
            if (targets[i].insert(name).second)
                repos[i]->addTargetInstantiator(new build::TargetInstantiator{vf::view(name), "/x", repos[i].get(), describe});
        }
    }
    // Externs are only declared in repos that can't see one of that name already
    std::vector<std::set<u32>> below(n);
    std::function<void(u32, std::set<u32>&)> reach = [&](u32 i, std::set<u32>& out) {
        if (out.insert(i).second)
            for (u32 j : kids[i])
                reach(j, out);
    };
    for (u32 i = 0; i < n; i++)
        reach(i, below[i]);
    std::map<std::pair<u32, Str>, u32> providers; // (repo, extern) -> number of providers
    for (u32 c = r.below(8); c > 0; c--) {
        u32 i = r.below(n);
        Str name = vf::fmt("ext%u", r.below(4));
        std::vector<u32> owners;
        for (u32 j : below[i])
            if (externs[j].count(name))
                owners.push_back(j);
        if (owners.size() > 1)
            continue; // Ambiguous: see FIXME in findOrCreateExtern
        Str written = name;
        u32 owner = owners.empty() ? i : owners[0];
        if (r.chance(1, 3))
            written = vf::fmt("repo%u.", owner) + name;
        size_t before = errors.size();
        repos[i]->addExternProvider(vf::view(written), vf::view(vf::fmt("prov%u", c)), externStub);
        VF_CHECK(errors.size() == before, "provider-error", "%s", errors.back().c_str());
        externs[owner].insert(name);
        providers[{owner, name}]++;
    }
    for (u32 i = 0; i < n; i++) {
        VF_CHECK(repos[i]->externs.numItems() == externs[i].size(), "externs", "repo%u has %u externs, not %zu", i, repos[i]->externs.numItems(), externs[i].size());
        for (u32 j = 0; j < n; j++) {
            const build::Repo* got = static_cast<const build::Repo*>(repos[i].get())->findChildRepo(vf::view(vf::fmt("repo%u", j)));
            VF_CHECK(got == (below[i].count(j) ? repos[j].get() : nullptr), "child-repo", "repo%u from repo%u", j, i);
        }
        for (u32 k = 0; k < 10; k++) {
            Str name = vf::fmt("mod-%u", k);
            std::vector<u32> owners;
            for (u32 j : below[i])
                if (targets[j].count(name))
                    owners.push_back(j);
            const build::TargetInstantiator* t = repos[i]->findTargetInstantiatorRecursive(vf::view(name));
            VF_CHECK((t != nullptr) == (owners.size() == 1), "target", "%s from repo%u: %s, %zu repos have it", name.c_str(), i, t ? "found" : "not found", owners.size());
            if (t)
                VF_CHECK(t->repo == repos[owners[0]].get() && vf::str(t->name) == name, "target", "%s from repo%u is another", name.c_str(), i);
            const build::TargetInstantiator* imm = repos[i]->findTargetInstantiatorImm(vf::view(name));
            VF_CHECK((imm != nullptr) == (targets[i].count(name) != 0), "target-here", "%s in repo%u", name.c_str(), i);
        }
        for (u32 k = 0; k < 5; k++) {
            Str name = vf::fmt("ext%u", k);
            std::vector<u32> owners;
            for (u32 j : below[i])
                if (externs[j].count(name))
                    owners.push_back(j);
            const build::DependencySource* d = repos[i]->findExternRecursive(vf::view(name));
            VF_CHECK((d != nullptr) == (owners.size() == 1), "extern", "%s from repo%u: %s, %zu repos have it", name.c_str(), i, d ? "found" : "not found", owners.size());
            if (d)
                VF_CHECK(d->repo == repos[owners[0]].get() && vf::str(d->getFullyQualifiedName()) == vf::fmt("repo%u.", owners[0]) + name, "extern", "%s is %s",
                         name.c_str(), vf::str(d->getFullyQualifiedName()).c_str());
            VF_CHECK((repos[i]->findExternImm(vf::view(name)) != nullptr) == (externs[i].count(name) != 0), "extern-here", "%s in repo%u", name.c_str(), i);
            // A dotted name, as a module file writes it
            u32 j = r.below(n);
            Str dotted = vf::fmt("repo%u.", j) + name;
            Array<StringView> own = build::splitName(vf::view(dotted), "extern name");
            ArrayView<StringView> comps = own;
            VF_CHECK(comps.numItems == 2, "split", "%s", dotted.c_str());
            size_t before = errors.size();
            d = repos[i]->findExtern(comps);
            bool there = below[i].count(j) && externs[j].count(name);
            VF_CHECK((d != nullptr) == there && (errors.size() > before) == !there, "extern-dotted", "%s from repo%u: %s", dotted.c_str(), i, d ? "found" : "not found");
        }
    }
    u32 total = 0;
    for (auto& repo : repos)
        for (build::ExternProvider* p : repo->externProviders) {
            total++;
            VF_CHECK(p->repo == repo.get() && p->extern_, "provider", "a provider of another repo");
        }
    u32 wantTotal = 0;
    for (auto& kv : providers)
        wantTotal += kv.second;
    VF_CHECK(total == wantTotal, "providers", "%u providers, not %u", total, wantTotal);
    // Splitting names
    Str text;
    std::vector<Str> parts;
    bool good = true;
    for (u32 k = r.below(4); k > 0; k--) {
        Str part = r.chance(1, 8) ? Str(r.chance(1, 2) ? "" : "9x") : vf::fmt("%c%c-_%u", 'a' + r.below(26), 'A' + r.below(26), r.below(99));
        if (!parts.empty())
            text += '.';
        good = good && !part.empty() && part[0] != '9';
        parts.push_back(part);
        text += part;
    }
    if (r.chance(1, 10)) {
        text += "!. "[r.below(3)];
        good = false;
    }
    good = good && !parts.empty();
    vf::Exact exact(text);
    size_t before = errors.size();
    Array<StringView> got = build::splitName(exact.view(), "name");
    VF_CHECK((got.numItems() != 0) == good && (errors.size() > before) == !good, "split", "'%s' splits into %u parts", text.c_str(), got.numItems());
    if (good)
        for (u32 k = 0; k < parts.size(); k++)
            VF_CHECK(got.numItems() == parts.size() && vf::str(got[k]) == parts[k], "split", "'%s' splits into %u parts", text.c_str(), got.numItems());
    build::ErrorHandler::current = {};
    vf::distinct(r.u64());
    vf::evals(n);
}

// Configured by CMake, compiled, linked and run: every source checks what it can and can't see.
VF_WORKLOAD(realBuilds, 40, 400) {
    Str dir = vf::scratch() + vf::fmt("/b%u/", (u32) idx);
    auto put = [&](const Str& path, const Str& text) {
        for (size_t at = dir.size() - 1; (at = path.find('/', at)) != Str::npos; at++)
            mkdir(path.substr(0, at).c_str(), 0755);
        std::ofstream{path} << text;
    };
    World w;
    w.dir = dir;
    u32 n = 2 + r.below(5);
    for (u32 i = 0; i < n; i++) {
        Node x;
        x.name = r.chance(1, 3) ? vf::fmt("Lib-%u", i) : vf::fmt("t%u", i);
        x.type = i + 1 == n ? BuildTargetType::EXE : BuildTargetType::Lib;
        x.inChild = i + 1 < n && r.chance(1, 3);
        x.exceptions = r.chance(1, 4);
        x.publicExceptions = r.chance(1, 8);
        for (u32 j = 0; j < i; j++)
            if ((!x.inChild || w.nodes[j].inChild) && r.chance(1, 2))
                x.deps.push_back({r.chance(1, 2), j});
        for (u32 k = x.deps.size(); k > 1; k--)
            std::swap(x.deps[k - 1], x.deps[r.below(k)]);
        x.incs = {{true, "api"}, {false, "inner"}};
        x.defs = {{true, {vf::fmt("PUB_%u", i), vf::fmt("%u", i + 1)}}, {false, {vf::fmt("PRIV_%u", i), "1"}}};
        x.roots = {{"code", true}};
        bool headerOnly = i + 1 < n && r.chance(1, 6);
        x.files["code"] = headerOnly ? std::vector<Str>{"x.h"} : std::vector<Str>{r.chance(1, 2) ? "main.cpp" : "sub dir/part one.cpp", "x.h", "skip.modules.cpp"};
        w.nodes.push_back(x);
    }
    w.roots = {n - 1};
    std::vector<s64> value(n);
    std::set<u32> used{n - 1};
    allReach(w, n - 1, used);
    for (u32 i = 0; i < n; i++) {
        Node& x = w.nodes[i];
        bool lib = hasSource(x);
        value[i] = i + 1;
        // Uses what it depends on through a header-only target's public interface too
        std::set<u32> vis = visible(w, i);
        Str root = rootOf(w, i), body, src;
        put(root + vf::fmt("api/pub_%u.h", i), lib ? vf::fmt("#pragma once\nlong f_%u();\n", i) : vf::fmt("#pragma once\ninline long f_%u() { return %u; }\n", i, i + 1));
        put(root + vf::fmt("inner/priv_%u.h", i), "#pragma once\n");
        put(root + "code/x.h", "\n");
        put(root + "code/skip.modules.cpp", "#error this file takes no part\n");
        if (!lib)
            continue;
        for (u32 j = 0; j < n; j++) {
            bool see = j == i || vis.count(j);
            src += vf::fmt(see ? "#include \"pub_%u.h\"\n#if PUB_%u != %u\n#error\n#endif\n" : "#if __has_include(\"pub_%u.h\") || defined(PUB_%u)\n#error leaked %u\n#endif\n", j, j,
                           j + 1);
            src += j == i ? vf::fmt("#include \"priv_%u.h\"\n#ifndef PRIV_%u\n#error\n#endif\n", j, j)
                          : vf::fmt("#if __has_include(\"priv_%u.h\") || defined(PRIV_%u)\n#error leaked\n#endif\n", j, j);
            if (see && j != i && (hasSource(w.nodes[j]) || true)) {
                body += vf::fmt(" + f_%u()", j);
                value[i] += value[j];
            }
        }
        bool exc = x.exceptions || x.publicExceptions;
        for (u32 j : vis)
            exc = exc || w.nodes[j].publicExceptions;
        src += vf::fmt("#if %sdefined(__cpp_exceptions)\n#error exceptions\n#endif\n", exc ? "!" : "");
        src += vf::fmt("long f_%u() { return %u%s; }\n", i, i + 1, body.c_str());
        if (i + 1 == n)
            src += vf::fmt("#include <cstdio>\nint main() { std::printf(\"%%ld\\n\", f_%u()); }\n", i);
        for (const Str& f : x.files["code"])
            if (isSource(f))
                put(root + "code/" + f, src);
    }
    // Header-only targets' values are their own; recompute what the run prints
    {
        std::ifstream in{"/repo/repos/plywood/scripts/Helper.cmake"};
        std::stringstream s;
        s << in.rdbuf();
        put(dir + "ws/repos/plywood/scripts/Helper.cmake", s.str());
    }
    setWorkspace(dir + "ws/");
    Str text = generate(w, false);
    put(dir + "out/CMakeLists.txt", text);
    const build::CMakeGeneratorOptions& opts = build::NativeToolchain;
    Str out = dir + "out";
    VF_CHECK(!build::cmakeBuildSystemExists(vf::view(out), opts, "proj", "Debug"), "exists-before", "a build system is said to exist");
    Tuple<s32, String> gen = build::generateCMakeProject(vf::view(out), opts, "Debug");
    VF_CHECK(gen.first == 0, "configure", "cmake fails with %d: %s", gen.first, vf::str(gen.second).substr(0, 2500).c_str());
    VF_CHECK(build::cmakeBuildSystemExists(vf::view(out), opts, "proj", "Debug"), "exists-after", "no build system is said to exist");
    Tuple<s32, String> made = build::buildCMakeProject(vf::view(out), opts, "Debug", r.chance(1, 2) ? vf::view(w.nodes[n - 1].name) : StringView{}, true);
    VF_CHECK(made.first == 0, "build", "make fails with %d: %s", made.first, vf::str(made.second).substr(0, 2500).c_str());
    Str exe = vf::str(build::getTargetOutputPath(BuildTargetType::EXE, vf::view(w.nodes[n - 1].name), vf::view(out), "Debug"));
    FILE* p = popen(("'" + exe + "' 2>&1").c_str(), "r");
    char buf[64] = {};
    size_t got = fread(buf, 1, sizeof(buf) - 1, p);
    int rc = pclose(p);
    VF_CHECK(rc == 0 && Str(buf, got) == vf::fmt("%lld\n", (long long) value[n - 1]), "run", "%s prints %s, not %lld", exe.c_str(), buf, (long long) value[n - 1]);
    for (u32 i : used)
        if (i + 1 < n && hasSource(w.nodes[i])) {
            Str lib = vf::str(build::getTargetOutputPath(BuildTargetType::Lib, vf::view(w.nodes[i].name), vf::view(out), "Debug"));
            VF_CHECK(access(lib.c_str(), R_OK) == 0, "lib-path", "%s isn't there", lib.c_str());
        }
    vf::count("projects built", 1);
    vf::count("targets built", used.size());
    vf::distinct(vf::hashStr(text));
    vf::evals(used.size());
    removeTree(dir);
}

VF_MAIN()

// What a dependency carries reaches exactly the targets that can see it, with and without targets
// of its own.
VF_WORKLOAD(carried, 3000, 60000) {
    u32 n = 2 + r.below(8);
    enum { Incs, Flags, Libs, Dlls, Frames, NumKinds };
    static const char* names[] = {"include dirs", "flags", "libs", "dlls", "frameworks"};
    std::vector<std::unique_ptr<build::Dependency>> deps;
    struct Model {
        Set own[NumKinds], priv[NumKinds];
        std::map<u32, bool> edges;
    };
    std::vector<Model> model(n);
    for (u32 i = 0; i < n; i++) {
        build::Dependency* d = new build::Dependency;
        deps.emplace_back(d);
        Model& m = model[i];
        Array<String>* lists[] = {&d->includeDirs, &d->abstractFlags, &d->libs, &d->dlls, &d->frameworks};
        for (u32 k = 0; k < NumKinds; k++)
            for (u32 c = r.below(3); c > 0; c--) {
                Str s = vf::fmt(k == Incs ? "/i%u" : "x%u", r.below(9));
                if (m.own[k].insert(s).second)
                    lists[k]->append(vf::view(s));
            }
        if (r.chance(3, 4)) {
            d->buildTarget = new build::BuildTarget{d};
            d->buildTarget->name = vf::view(vf::fmt("t%u", i));
            static const BuildTargetType types[] = {BuildTargetType::HeaderOnly, BuildTargetType::Lib, BuildTargetType::ObjectLib, BuildTargetType::EXE};
            d->buildTarget->targetType = types[r.below(4)];
            for (u32 k = 0; k < 2; k++)
                for (u32 c = r.below(3); c > 0; c--) {
                    Str s = vf::fmt(k == Incs ? "/i%u" : "x%u", r.below(9));
                    if (m.priv[k].insert(s).second)
                        (k == Incs ? d->buildTarget->privateIncludeDirs : d->buildTarget->privateAbstractFlags).append(vf::view(s));
                }
        }
        for (u32 c = r.below(5); c > 0 && i > 0; c--) {
            u32 j = r.below(i);
            bool p = r.chance(1, 2);
            bool fresh = d->addDependency(p ? Visibility::Public : Visibility::Private, deps[j].get());
            VF_CHECK(fresh == !m.edges.count(j), "add", "dependency %u of %u is said to be %s", j, i, fresh ? "new" : "known");
            m.edges[j] = m.edges[j] || p;
        }
    }
    for (u32 c = n; c > 0; c--)
        build::propagateDependencyProperties(deps[r.below(n)].get());
    for (u32 i = 0; i < n; i++)
        build::propagateDependencyProperties(deps[i].get());
    for (u32 i = 0; i < n; i++) {
        Model& m = model[i];
        for (auto& e : m.edges) {
            Model& c = model[e.first];
            for (u32 k = 0; k < NumKinds; k++) {
                if (k < 2)
                    m.priv[k].insert(c.own[k].begin(), c.own[k].end());
                if (k >= 2 || e.second)
                    m.own[k].insert(c.own[k].begin(), c.own[k].end());
            }
            if (build::BuildTarget* t = deps[e.first]->buildTarget) {
                if (t->targetType == BuildTargetType::ObjectLib)
                    m.own[Libs].insert("$<TARGET_OBJECTS:" + vf::str(t->name) + ">");
                else if (t->targetType != BuildTargetType::HeaderOnly)
                    m.own[Libs].insert(vf::str(t->name));
            }
        }
        auto same = [](const Array<String>& a, const Set& b) {
            Set s;
            for (const String& x : a)
                s.insert(vf::str(x));
            return s == b && a.numItems() == b.size();
        };
        build::Dependency* d = deps[i].get();
        const Array<String>* lists[] = {&d->includeDirs, &d->abstractFlags, &d->libs, &d->dlls, &d->frameworks};
        for (u32 k = 0; k < NumKinds; k++)
            VF_CHECK(same(*lists[k], m.own[k]), "carried", "the %s of dependency %u of %u", names[k], i, n);
        if (d->buildTarget)
            for (u32 k = 0; k < 2; k++)
                VF_CHECK(same(k == Incs ? d->buildTarget->privateIncludeDirs : d->buildTarget->privateAbstractFlags, m.priv[k]), "received", "the %s of target %u of %u",
                         names[k], i, n);
        vf::evals(1);
    }
    vf::distinct(r.u64());
}
