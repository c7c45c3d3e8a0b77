"""Content-addressed build of /repo's sources plus the harnesses, one build per sanitizer flavor.

An object's cache key is the hash of (flags, its source, every header and .inl in /repo's source
tree, every header of /verif/harness), so no object can be stale whatever the files' times are.
"""
import hashlib, os, shutil, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "repos/plywood/src")
BUILD = os.path.join(VERIF, "build")

INCLUDES = ["platform", "runtime", "reflect", "pylon/pylon", "pylon/reflect", "cpp", "crowbar",
            "build/common", "build/target", "build/provider", "build/repo", "build/folder",
            "math/math", "math/serial", "web/common", "web/markdown", "web/documentation",
            "web/serve-docs", "web/sass", "image/image", "image/reflect", "audio/primitives",
            "test/test", "apps/plytool/plytool-client", "apps/plytool/plytool"]

# module -> (source dirs, defines, dependencies)
MODULES = {
    "runtime": (["runtime/ply-runtime"], [], []),
    "reflect": (["reflect/ply-reflect"], [], ["runtime"]),
    "pylon": (["pylon/pylon/pylon"], [], ["runtime"]),
    "pylon-reflect": (["pylon/reflect/pylon-reflect"], [], ["pylon", "reflect"]),
    "cpp": (["cpp/ply-cpp"], [], ["reflect"]),
    "crowbar": (["crowbar/ply-crowbar"], [], ["reflect"]),
    "math": (["math/math/ply-math"], [], ["runtime"]),
    "math-serial": (["math/serial/ply-math-serial"], [], ["math", "reflect"]),
    "image": (["image/image/image"], [], ["runtime", "math"]),
    "image-reflect": (["image/reflect/image-reflect"], [], ["image", "reflect"]),
    "audio": (["audio/primitives/audio-primitives"], [], ["reflect"]),
    "web-common": (["web/common/web-common"], [], ["runtime"]),
    "web-markdown": (["web/markdown/web-markdown"], [], ["reflect", "web-common"]),
    "web-documentation": (["web/documentation/web-documentation"], [], ["reflect"]),
    "web-serve-docs": (["web/serve-docs/ply-web-serve-docs"], [],
                       ["pylon-reflect", "web-documentation", "web-common"]),
    "test": (["test/test/ply-test"], [], ["runtime"]),
    "build-common": (["build/common/ply-build-common"], [], ["reflect"]),
    "build-target": (["build/target/ply-build-target"], [], ["build-common"]),
    "build-provider": (["build/provider/ply-build-provider"], [], ["build-common", "pylon-reflect"]),
    "build-repo": (["build/repo/ply-build-repo"], [], ["build-target", "build-provider", "cpp"]),
    "build-folder": (["build/folder/ply-build-folder"], [], ["build-repo"]),
}
for m in ("build-target", "build-provider", "build-repo", "build-folder"):
    MODULES[m] = (MODULES[m][0], ["PLY_BUILD_EXPORTING=1", "PLY_DLL_EXPORTING=1", "PYLON_EXPORTING=1"],
                  MODULES[m][2])

COMMON = ["-std=c++14", "-fno-caret-diagnostics", "-ferror-limit=6", "-include", "utility", "-include", "ply-runtime/thread/Atomic.h", "-fno-exceptions", "-w", "-pthread",
          "-fno-omit-frame-pointer", "-DPLY_WITH_ASSERTS=1"]
# UndefinedBehaviorSanitizer groups that this code base trips by design (type-punned containers,
# functions called through void* hooks) are left out; see DESIGN.md.
UB = ("-fsanitize=address,undefined -fno-sanitize=alignment,vptr,function,nonnull-attribute,object-size,"
      "returns-nonnull-attribute,null,pointer-overflow,enum,bool,float-cast-overflow "
      "-fno-sanitize-recover=all").split()
FLAVORS = {
    # AddressSanitizer + UBSan, allocations go to malloc so that ASan sees each one
    "asan": (["-O1", "-gline-tables-only"] + UB, ["PLY_USE_DLMALLOC=0", "PLY_REPLACE_OPERATOR_NEW=1"]),
    # as shipped: PLY_HEAP is the embedded dlmalloc
    "dl": (["-O1", "-gline-tables-only"], ["PLY_USE_DLMALLOC=1", "PLY_REPLACE_OPERATOR_NEW=1"]),
    "dl0": (["-O0"], ["PLY_USE_DLMALLOC=1", "PLY_REPLACE_OPERATOR_NEW=1"]),
    "tsan": (["-O1", "-gline-tables-only", "-fsanitize=thread"],
             ["PLY_USE_DLMALLOC=0", "PLY_REPLACE_OPERATOR_NEW=0"]),
    # ThreadSanitizer over the shipped heap
    "tsandl": (["-O1", "-gline-tables-only", "-fsanitize=thread"],
               ["PLY_USE_DLMALLOC=1", "PLY_REPLACE_OPERATOR_NEW=0"]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _config(flavor):
    d = os.path.join(BUILD, "cfg", flavor)
    os.makedirs(os.path.join(d, "ply-platform"), exist_ok=True)
    os.makedirs(os.path.join(d, "ply-build-target"), exist_ok=True)
    defs = "".join("#define %s\n" % x.replace("=", " ") for x in FLAVORS[flavor][1])
    body = ("#define PLY_PREFER_CPP11 0\n#define PLY_WITH_EXCEPTIONS 0\n" + defs +
            "#define PLY_DLMALLOC_DEBUG_CHECKS 0\n#define PLY_DLMALLOC_FAST_STATS 0\n"
            '#define PLY_IMPL_MUTEX_PATH "impl/Mutex_CPP11.h"\n'
            "#define PLY_IMPL_MUTEX_TYPE ply::Mutex_CPP11\n"
            '#define PLY_IMPL_CONDITIONVARIABLE_PATH "impl/ConditionVariable_CPP11.h"\n'
            "#define PLY_IMPL_CONDITIONVARIABLE_TYPE ply::ConditionVariable_CPP11\n"
            "#include <stdlib.h>\n"
            "static inline const char* vf_env(const char* n, const char* d) {\n"
            "    const char* v = getenv(n); return v ? v : d; }\n"
            '#define PLY_WORKSPACE_FOLDER ::vf_env("VF_WORKSPACE", "/nonexistent-workspace/")\n'
            '#define PLY_BUILD_FOLDER ::vf_env("VF_BUILDFOLDER", "/nonexistent-workspace/build/")\n'
            '#define PLY_CMAKE_PATH "cmake"\n#define WITH_AUDIO 1\n')
    nt = ('CMakeGeneratorOptions NativeToolchain = {\n    "Unix Makefiles",\n    "",\n    "",\n    "",\n};\n'
          'String DefaultNativeConfig = "Debug";\n')
    for name, text in (("ply-platform/Config.h", body), ("ply-build-target/NativeToolchain.inl", nt)):
        p = os.path.join(d, name)
        if not os.path.exists(p) or _read(p).decode() != text:
            tmp = p + ".%d" % os.getpid()
            with open(tmp, "w") as f:
                f.write(text)
            os.replace(tmp, p)
    return d, hashlib.sha256((body + nt).encode()).hexdigest()


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        files = []
        for root, dirs, fs in os.walk(SRC):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".inl", ".hpp", ".inc")) or "." not in f:
                    files.append(os.path.join(root, f))
        files += sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
        for p in files:
            h.update(p.encode() + b"\0" + _read(p) + b"\0")
        _hdr = h.hexdigest()
    return _hdr


def module_closure(mods):
    out = []

    def visit(m):
        for d in MODULES[m][2]:
            visit(d)
        if m not in out:
            out.append(m)
    for m in mods:
        visit(m)
    return out


def module_sources(m):
    res = []
    for d in MODULES[m][0]:
        for root, dirs, fs in os.walk(os.path.join(SRC, d)):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(".cpp") and f != "Precomp.cpp" and not f.endswith(".modules.cpp"):
                    res.append(os.path.join(root, f))
    return res


# modules whose reflection code is not tracked: generated by running the tree's own plytool
NEED_GEN = ("crowbar", "audio", "web-documentation")
PLYTOOL_MODULES = ["build-folder"]
PLYTOOL_SRC = ["apps/plytool/plytool", "apps/plytool/plytool-client/plytool-client"]


def build_plytool(flavor):
    extra = []
    for d in PLYTOOL_SRC:
        extra += [os.path.join(d, f) for f in sorted(os.listdir(os.path.join(SRC, d)))
                  if f.endswith(".cpp") and not f.endswith(".modules.cpp")]
    return build("plytool", [], PLYTOOL_MODULES, flavor, extra_sources=extra)


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, fs in os.walk(SRC):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".inl", ".cpp")) or "." not in f:
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + _read(p) + b"\0")
    return h.hexdigest()[:24]


def copy_sources(ws):
    """A workspace at ws holding a copy of the tree under test."""
    os.makedirs(os.path.join(ws, "repos"), exist_ok=True)
    shutil.copytree(os.path.join(REPO, "repos/plywood"), os.path.join(ws, "repos/plywood"), symlinks=True)
    with open(os.path.join(ws, "workspace-settings.pylon"), "w") as f:
        f.write("{\n}\n")


def gen_tree():
    d = os.path.join(BUILD, "gen", tree_hash() + hashlib.sha256(SRC.encode()).hexdigest()[:6])
    if not os.path.exists(os.path.join(d, "done")):
        exe = build_plytool("dl0")
        tmp = d + ".%d.tmp" % os.getpid()
        shutil.rmtree(os.path.join(BUILD, "gen"), ignore_errors=True)
        copy_sources(tmp)
        r = subprocess.run([exe, "codegen"], cwd=tmp, env=dict(os.environ, VF_WORKSPACE=tmp + "/"),
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode != 0:
            raise BuildError("plytool codegen: %d\n%s" % (r.returncode, r.stdout.decode(errors="replace")[-3000:]))
        open(os.path.join(tmp, "done"), "w").close()
        os.rename(tmp, d)
    return os.path.join(d, "repos/plywood/src")


def tool_env(flavor):
    """For checks that run the command-line tool itself: where it is, and what its workspaces need."""
    return {"VF_PLYTOOL": build_plytool(flavor), "VF_CFG": _config(flavor)[0],
            "VF_TREE": os.path.dirname(gen_tree())}


def build(name, harness, modules, flavor, extra_defs=(), skip=(), extra_sources=(), ldflags=()):
    """Returns the path of the linked executable."""
    cfgdir, cfghash = _config(flavor)
    flags = COMMON + FLAVORS[flavor][0]
    incs = ["-I" + os.path.join(VERIF, "harness"), "-I" + cfgdir] + \
           ["-I" + os.path.join(SRC, i) for i in INCLUDES]
    need = module_closure(modules)
    if any(m in NEED_GEN for m in need):
        g = gen_tree()
        incs += ["-I" + os.path.join(g, d) for m in need if m in NEED_GEN for d in MODULES[m][0]]
        cfghash += g
    jobs = []  # (src, defs)
    for m in module_closure(modules):
        for s in module_sources(m):
            if any(s.endswith(k) for k in skip):
                continue
            jobs.append((s, list(MODULES[m][1])))
    for s in list(extra_sources):
        jobs.append((os.path.join(SRC, s), ["PLY_BUILD_EXPORTING=1", "PLY_DLL_EXPORTING=1", "PYLON_EXPORTING=1"]))
    hs = harness if isinstance(harness, (list, tuple)) else [harness]
    for h in hs:
        jobs.append((os.path.join(VERIF, "harness", h), list(extra_defs)))
    objdir = os.path.join(BUILD, "obj", flavor)
    os.makedirs(objdir, exist_ok=True)
    base = hashlib.sha256(("\0".join(flags) + cfghash + header_hash()).encode()).hexdigest()
    objs, todo = [], []
    for src, defs in jobs:
        if not os.path.exists(src):
            continue
        key = hashlib.sha256(base.encode() + b"\0" + src.encode() + b"\0" + "\0".join(defs).encode() +
                             b"\0" + _read(src)).hexdigest()[:32]
        o = os.path.join(objdir, os.path.basename(src)[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((src, defs, o))
    # big files first
    todo.sort(key=lambda t: -os.path.getsize(t[0]) - (10**7 if "/harness/" in t[0] else 0))

    def comp(t):
        src, defs, o = t
        tmp = o + ".%d.tmp" % os.getpid()
        cmd = ["clang++"] + flags + ["-D" + d for d in defs] + incs + ["-c", src, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return "%s\n%s" % (src, r.stdout.decode(errors="replace")[-2500:])
        os.replace(tmp, o)
        return None

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs:
        raise BuildError("\n".join(errs[:2]))
    exedir = os.path.join(BUILD, "bin", flavor)
    os.makedirs(exedir, exist_ok=True)
    lk = hashlib.sha256(("\0".join(objs) + "\0".join(ldflags)).encode()).hexdigest()[:24]
    exe = os.path.join(exedir, name + "-" + lk)
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(exedir, name + "-" + "?" * 24)):
            try:
                os.unlink(old)
            except OSError:
                pass
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = ["clang++"] + flags + objs + ["-o", tmp, "-ldl", "-rdynamic"] + list(ldflags)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("link %s\n%s" % (name, r.stdout.decode(errors="replace")[-2500:]))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2], sys.argv[3].split(","), sys.argv[4]), time.time() - t)
