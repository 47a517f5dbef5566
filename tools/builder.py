"""Content-hash driven build of libCZI (from /repo's working tree) and of the harnesses.

Every object is keyed by the compile command and the CONTENT of all files it depends on (from -MMD), so that
a change in /repo is seen whatever the time stamps say.  Nothing is written inside /repo.
"""
import hashlib, json, os, re, subprocess, sys, glob, shlex
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

ASAN = ["-fsanitize=address,bounds,integer-divide-by-zero,return,unreachable,bool,enum", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (flags for C/C++ , link flags, defines)
    "asan": dict(cflags=["-O1", "-g1"] + ASAN, ldflags=ASAN, avx=0),
    "asanavx": dict(cflags=["-O1", "-g1"] + ASAN, ldflags=ASAN, avx=1),
    "asancrt": dict(cflags=["-O1", "-g1"] + ASAN, ldflags=ASAN, avx=0, pread=0),   # as on platforms without pread/pwrite
    "tsanrt": dict(cflags=["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"], ldflags=[], avx=0),
    "tsan": dict(cflags=["-O1", "-g1", "-fsanitize=thread"], ldflags=["-fsanitize=thread"], avx=0),
}

class BuildError(Exception):
    pass

_hash_cache = {}
def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)
    _hash_cache.pop(path, None)

def gen_config(src, dst, values):
    with open(src) as f:
        t = f.read()
    t = re.sub(r"@(\w+)@", lambda m: str(values.get(m.group(1), "0")), t)
    write_if_changed(dst, t)

def parse_deps(dfile):
    with open(dfile) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [x for x in t.split() if not x.startswith("/usr/")]

class Builder:
    def __init__(self, variant):
        self.v = variant
        self.cfg = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)
        self.dbfile = os.path.join(self.dir, "db.json")
        try:
            self.db = json.load(open(self.dbfile))
        except Exception:
            self.db = {}
        inc = os.path.join(self.dir, "inc")
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
        vals = dict(libCZI_VERSION_MAJOR=m.group(1) if m else "0", libCZI_VERSION_MINOR=m.group(2) if m else "0", libCZI_VERSION_PATCH=m.group(3) if m else "0", libCZI_VERSION_TWEAK="",
            libCZI_HAVE_ENDIAN_H=1, libCZI_CompilerIdentification="GNU", libCZI_HAVE_ALIGNED_ALLOC=1, libCZI_UsePreadPwriteBasedStreamImplementation=self.cfg.get('pread', 1),
            libCZI_REPOSITORYREMOTEURL="unknown", libCZI_REPOSITORYBRANCH="unknown", libCZI_REPOSITORYHASH="unknown", libCZI_HAS_AVXINTRINSICS=self.cfg["avx"],
            libCZI_libcurl_available=1, libCZI_AzureStorage_available=0, libCZI_AzureStorage_SDK_Version_Info="not available", libCZI_Has_builtin_bswap32=1)
        gen_config(os.path.join(REPO, "Src/libCZI/libCZI_Config.h.in"), os.path.join(inc, "libCZI_Config.h"), vals)
        jin = glob.glob(os.path.join(REPO, "Src/JxrDecode/*.h.in"))
        jvals = dict(jxrdecode_Has_builtin_bswap32=1, jxrdecode_Has_rotl_with_x86intrin=1)
        for j in jin:
            gen_config(j, os.path.join(inc, os.path.basename(j)[:-3]), jvals)
        self.inc = inc

    def obj_path(self, src):
        return os.path.join(self.dir, "obj", src.strip("/").replace("/", "__") + ".o")

    def need(self, src, cmd):
        o = self.obj_path(src)
        e = self.db.get(o)
        if not e or e.get("cmd") != cmd or not os.path.exists(o):
            return True
        return any(fhash(d) != h for d, h in e["deps"].items())

    def compile_all(self, items):
        """items: list of (src, cmdprefix list). Returns objects."""
        todo = []
        for src, c in items:
            cmd = " ".join(c)
            if self.need(src, cmd):
                todo.append((src, c, cmd))
        errs = []
        def one(t):
            src, c, cmd = t
            o = self.obj_path(src)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            r = subprocess.run(c + ["-MD", "-MF", o + ".d", "-c", src, "-o", o], capture_output=True, text=True)
            if r.returncode != 0:
                errs.append(src + "\n" + r.stderr[:3000])
                self.db.pop(o, None)
                return
            self.db[o] = dict(cmd=cmd, deps={d: fhash(d) for d in parse_deps(o + ".d")}, stamp=hashlib.sha256((cmd + src).encode()).hexdigest())
        if todo:
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(one, todo))
            json.dump(self.db, open(self.dbfile, "w"))
        if errs:
            raise BuildError("\n".join(errs[:3]))
        return [self.obj_path(s) for s, _ in items], len(todo)

    def objkey(self, objs):
        h = hashlib.sha256()
        for o in objs:
            e = self.db[o]
            h.update((o + e["cmd"]).encode())
            for d, x in sorted(e["deps"].items()):
                h.update((d + x).encode())
        return h.hexdigest()

    def lib(self):
        L = os.path.join(REPO, "Src/libCZI"); J = os.path.join(REPO, "Src/JxrDecode")
        items = []
        jx = sorted(glob.glob(J + "/**/*.c", recursive=True)) + sorted(glob.glob(J + "/**/*.cpp", recursive=True))
        jflags = [f for f in self.cfg["cflags"]]
        jflags = [("-fsanitize=address" if f.startswith("-fsanitize=address") else f) for f in jflags]
        for s in jx:
            cc = ["gcc"] if s.endswith(".c") else ["g++", "-std=gnu++11"]
            items.append((s, cc + jflags + ["-w", "-DNDEBUG", "-I" + self.inc]))
        src = sorted(glob.glob(L + "/*.cpp")) + sorted(glob.glob(L + "/*/*.cpp"))
        for s in src:
            fl = list(self.cfg["cflags"])
            if self.cfg["avx"] and s.endswith("utilities_simd.cpp"):
                fl.append("-mavx2")
            items.append((s, ["g++", "-std=gnu++14"] + fl + ["-w", "-DNDEBUG", "-D_LIBCZISTATICLIB", "-D_FILE_OFFSET_BITS=64", "-I" + self.inc, "-I" + L, "-isystem", "/usr/include/eigen3"]))
        objs, n = self.compile_all(items)
        return objs, n

    def capi(self):
        A = os.path.join(REPO, "Src/libCZIAPI")
        items = [(s, ["g++", "-std=gnu++17"] + self.cfg["cflags"] + ["-w", "-DNDEBUG", "-D_LIBCZISTATICLIB", "-D_LIBCZIAPISTATICLIB", "-I" + self.inc, "-I" + REPO + "/Src/libCZI", "-isystem", "/usr/include/eigen3"]) for s in sorted(glob.glob(A + "/src/*.cpp"))]
        return self.compile_all(items)[0]

    def harness(self, name, sources, use_capi=False, extra_cflags=(), extra_ldflags=(), libs=True, plain_sources=()):
        """builds build/<variant>/bin/<name>; plain_sources are compiled without any instrumentation"""
        H = os.path.join(VERIF, "harness")
        objs = []
        if libs:
            objs += self.lib()[0]
        if use_capi:
            objs += self.capi()
        items = []
        base = ["-w", "-DNDEBUG", "-D_LIBCZISTATICLIB", "-D_LIBCZIAPISTATICLIB", "-I" + self.inc, "-I" + REPO + "/Src/libCZI", "-I" + REPO + "/Src/libCZIAPI/inc", "-I" + H, "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include"]
        base = base[:-2]
        for s in sources:
            items.append((os.path.join(H, s), ["g++", "-std=gnu++17"] + self.cfg["cflags"] + list(extra_cflags) + base))
        inst, items = items, []
        for s in plain_sources:
            items.append((os.path.join(H, s), ["g++", "-std=gnu++17", "-O1", "-g1"] + list(extra_cflags) + base))
        # instrumented objects first: their copies of inline functions are the ones linked
        objs = self.compile_all(inst)[0] + objs + (self.compile_all(items)[0] if items else [])
        out = os.path.join(self.dir, "bin", name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        link = self.cfg["ldflags"] + list(extra_ldflags) + ["-lzstd", "-lcurl", "-lpthread", "-ldl"]
        key = self.objkey(objs) + " ".join(link)
        if self.db.get(out) != key or not os.path.exists(out):
            r = subprocess.run(["g++", "-o", out] + objs + link, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link " + name + "\n" + r.stderr[-4000:])
            self.db[out] = key
            json.dump(self.db, open(self.dbfile, "w"))
        return out

if __name__ == "__main__":
    import time
    t = time.time()
    b = Builder(sys.argv[1] if len(sys.argv) > 1 else "asan")
    print(b.lib()[1], "compiled", time.time() - t)
