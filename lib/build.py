"""Content-addressed build of /repo sources plus the harnesses.

Objects are keyed by (flags, source text, every header they may include), so a
check always reflects /repo's current working tree, and an unchanged tree is
never rebuilt within one sandbox.
"""
import glob, hashlib, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HRM_REPO", "/repo")
BUILD = os.environ.get("HRM_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-pthread",
          "-D_GLIBCXX_ASSERTIONS", "-Wno-everything"]
VARIANTS = {
    # AddressSanitizer + LeakSanitizer + UBSan (+ float->int overflow), asserts on
    "san": ("clang++", COMMON + ["-O1", "-fsanitize=address,undefined,float-cast-overflow",
                                 "-fno-sanitize-recover=all"],
            ["-fsanitize=address,undefined,float-cast-overflow"]),
    # behavioural monitors: assertions of Eigen and libstdc++ on, cheap UBSan checks only, so that
    # the workloads can be long (the same workloads run under "san" for the memory-safety property)
    "mon": ("clang++", COMMON + ["-O1", "-fsanitize=float-cast-overflow,bounds,signed-integer-overflow,return,unreachable",
                                 "-fno-sanitize-recover=all"],
            ["-fsanitize=float-cast-overflow,bounds,signed-integer-overflow,return,unreachable"]),
    # ThreadSanitizer
    "tsan": ("clang++", COMMON + ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # uninstrumented, for valgrind/memcheck
    "plain": ("clang++", COMMON + ["-O1"], []),
}
OMPL_INC = "/usr/include/ompl-1.5"
INC = ["-I" + REPO, "-I" + os.path.join(REPO, "src"), "-I" + OMPL_INC,
       "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/urdfdom"]
LIBS = ["-lompl", "-lfcl", "-lccd", "-lorocos-kdl", "-ltinyxml2", "-lgmp", "-lgtest",
        "-lurdfdom_model", "-lurdfdom_world", "-lboost_system"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    """{name: path} of every .cpp that some src/**/CMakeLists.txt names."""
    out = {}
    for d, _, files in os.walk(os.path.join(REPO, "src")):
        if "CMakeLists.txt" not in files:
            continue
        txt = _read(os.path.join(d, "CMakeLists.txt")).decode("utf8", "replace")
        txt = re.sub(r"#.*", "", txt)
        txt = txt.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "")
        for m in re.findall(r"[\w./\-]+\.(?:cpp|cc|cxx)\b", txt):
            for base in (d, os.path.join(REPO, "src"), REPO):
                p = os.path.normpath(os.path.join(base, m))
                if os.path.isfile(p):
                    out[os.path.relpath(p, REPO)] = p
                    break
        for pat in re.findall(r"[\w./\-]*\*\.(?:cpp|cc|cxx)", txt):
            for p in glob.glob(os.path.join(d, pat)):
                out[os.path.relpath(p, REPO)] = p
    return out


def _headers(root):
    res = []
    for d, ds, files in os.walk(root):
        ds.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".inl", ".hh")):
                res.append(os.path.join(d, f))
    return res


def _config_dir():
    d = os.path.join(BUILD, "gen", "hrm")
    os.makedirs(d, exist_ok=True)
    txt = ('#pragma once\n#define RESOURCES_PATH "rsrc"\n#define HRM_RESOURCES "%s/resources"\n'
           '#define CONFIG_PATH "cfg"\n#define BENCHMARK_DATA_PATH "res"\n'
           '#define SOLUTION_DETAILS_PATH "res"\n' % REPO)
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or _read(p).decode() != txt:
        with open(p + ".tmp", "w") as f:
            f.write(txt)
        os.replace(p + ".tmp", p)
    return os.path.dirname(d), txt


class Builder:
    def __init__(self, variant, jobs=None):
        self.variant = variant
        self.cxx, self.cflags, self.lflags = VARIANTS[variant]
        gen, cfg = _config_dir()
        kdl = os.path.join(REPO, "src/util/external/kdl_parser/include")
        self.inc = ["-I" + gen, "-I" + HARNESS, "-I" + os.path.join(REPO, "include"),
                    "-I" + kdl] + INC
        h = hashlib.sha256()
        h.update(" ".join([self.cxx] + self.cflags + self.inc).encode())
        h.update(cfg.encode())
        for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
            for p in _headers(root):
                if p.endswith("include/hrm/config.h"):
                    continue
                h.update(os.path.relpath(p, REPO).encode() + b"\0" + _read(p) + b"\0")
        self.repo_hash = h.hexdigest()
        h2 = hashlib.sha256()
        for p in _headers(HARNESS):
            h2.update(os.path.relpath(p, HARNESS).encode() + b"\0" + _read(p) + b"\0")
        self.harness_hash = h2.hexdigest()
        self.jobs = jobs or os.cpu_count() or 8
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)

    def _obj(self, path, is_harness):
        h = hashlib.sha256()
        h.update(self.repo_hash.encode())
        if is_harness:
            h.update(self.harness_hash.encode())
            for inc in re.findall(r'#include "(\w+\.cpp)"', _read(path).decode()):
                h.update(_read(os.path.join(HARNESS, inc)))
        h.update(os.path.basename(path).encode() + b"\0" + _read(path))
        return os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")

    def _compile(self, item):
        path, is_harness = item
        obj = self._obj(path, is_harness)
        if os.path.exists(obj):
            return obj
        tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), threading.get_ident())
        cmd = [self.cxx] + self.cflags + self.inc + ["-c", path, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("compile failed: %s\n%s" % (
                " ".join(cmd), r.stdout.decode("utf8", "replace")[-6000:]))
        os.replace(tmp, obj)
        return obj

    def build(self, harness, parts):
        return self.build_many([(harness, parts)])[0]

    def build_many(self, specs):
        """specs: [(harness .cpp names, regexes selecting repo TUs)]; one executable each."""
        srcs = repo_sources()
        per = []
        for harness, parts in specs:
            sel = sorted(p for n, p in srcs.items() if any(re.search(x, n) for x in parts))
            per.append([(os.path.join(HARNESS, x), True) for x in harness] + [(p, False) for p in sel])
        objs = self._compile_all([it for its in per for it in its])
        exes = []
        for (harness, _), its in zip(specs, per):
            try:
                exes.append(self._link(harness, [objs[it] for it in its]))
            except BuildError:
                # the selection no longer closes over what it uses: take every source
                allit = its[:len(harness)] + [(p, False) for p in sorted(srcs.values())]
                objs.update(self._compile_all(allit))
                exes.append(self._link(harness, [objs[it] for it in allit]))
        return exes

    def _compile_all(self, items):
        items = sorted(set(items), key=lambda it: (
            0 if it[1] else 1 if re.search("Separation|MeshGen|HRM|LineInter|SuperQ|RoadMap", it[0]) else 2,
            -len(_read(it[0])), it[0]))
        with ThreadPoolExecutor(self.jobs) as ex:
            return dict(zip(items, ex.map(self._compile, items)))

    def _link(self, harness, objs):
        key = hashlib.sha256((" ".join(sorted(objs)) + " ".join(self.lflags + LIBS)).encode()
                             ).hexdigest()[:32]
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (
            os.path.splitext(harness[0])[0], self.variant, key))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            cmd = [self.cxx] + self.lflags + ["-pthread"] + objs + LIBS + ["-o", tmp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("link failed: %s\n%s" % (
                    " ".join(cmd), r.stdout.decode("utf8", "replace")[-6000:]))
            os.replace(tmp, exe)
        return exe


if __name__ == "__main__":
    for k in sorted(repo_sources()):
        print(k)
