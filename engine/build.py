"""Builds a harness together with /repo's current sources, instrumented (symbolic) or plain (replay)."""
import concurrent.futures as cf, glob, hashlib, os, re, subprocess, sys, threading, time

REPO = os.environ.get("SYMX_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.path.join(VERIF, ".cache")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "/usr/bin/clang++-18"
LIBS = "-lssl -lcrypto -lfontconfig -lfreetype -lxml2 -lpng -lz -ltiff -ljpeg -lidn".split()
JOBS = os.cpu_count() or 4
BASE = ["-std=gnu++17", "-DHAS_UNCAUGHT_EXCEPTIONS=1", "-DPDFMM_SHARED", "-Dpdfmm_shared_EXPORTS", "-DNDEBUG", "-DCHARCONV_COMPAT_H",
        "-I" + CACHE + "/config", "-I" + REPO + "/src", "-I" + REPO + "/3rdparty", "-I/usr/include/freetype2", "-I/usr/include/libxml2", "-I" + HERE, "-w"]
SYM = BASE + ["-fno-pic", "-O1", "-fno-vectorize", "-fno-slp-vectorize"]
NAT = BASE + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:300], (p.stderr or p.stdout)[-6000:]))
    return p.stdout


class BuildError(Exception):
    pass


def fh(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


_lock = threading.Lock()


def cached(path, fn):
    if os.path.exists(path):
        return path
    tmp = "%s.%d.%d.tmp" % (path, os.getpid(), threading.get_ident())
    fn(tmp)
    os.rename(tmp, path)
    return path


def config():
    d = os.path.join(CACHE, "config"); os.makedirs(d, exist_ok=True)
    src = open(REPO + "/src/pdfmm/pdfmm_config.h.in").read()
    try:
        cm = open(REPO + "/CMakeLists.txt").read()
    except OSError:
        cm = ""
    for k, dv in (("MAJOR", "0"), ("MINOR", "10"), ("PATCH", "0")):
        m = re.search(r'PDFMM_VERSION_%s\s+"?(\d+)' % k, cm)
        src = re.sub(r"[@$]\{?PDFMM_VERSION_%s\}?@?" % k, m.group(1) if m else dv, src)
    out = []
    for l in src.split("\n"):
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", l)
        if m:
            l = "#define %s" % m.group(1) if m.group(1) != "PDFMM_HAVE_WIN32GDI" else "/* #undef %s */" % m.group(1)
        out.append(l)
    txt = "\n".join(out)
    p = os.path.join(d, "pdfmm_config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def headers_hash():
    h = hashlib.sha256()
    fs = []
    for root in ("/src", "/3rdparty"):
        for dp, dn, fn in os.walk(REPO + root):
            fs += [os.path.join(dp, f) for f in fn if not f.endswith((".cpp", ".txt"))]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(CACHE + "/config/pdfmm_config.h", "rb").read())
    h.update(fh(HERE + "/pch.h").encode())
    return h.hexdigest()


def all_tus():
    r = []
    for d in ("base", "common", "contrib", "private"):
        for dp, dn, fn in os.walk(REPO + "/src/pdfmm/" + d):
            r += [os.path.join(dp, f) for f in fn if f.endswith((".cpp", ".cc", ".cxx"))]
    for dp, dn, fn in os.walk(REPO + "/3rdparty/pdfium"):
        r += [os.path.join(dp, f) for f in fn if f.endswith((".cpp", ".cc"))]
    return sorted(r)


class Build:
    def __init__(self, log=None):
        os.makedirs(CACHE, exist_ok=True)
        config()
        self.hh = headers_hash()
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.log = log or (lambda *a: None)
        self.f = {}

    def key(self, *parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(str(p).encode() + b"\0")
        return h.hexdigest()[:24]

    def fut(self, name, fn):
        with _lock:
            if name not in self.f:
                self.f[name] = self.pool.submit(fn)
            return self.f[name]

    # ---- engine
    def plugin(self):
        s = HERE + "/SymxPass.cpp"
        return cached("%s/symx-%s.so" % (CACHE, fh(s)[:16]), lambda o: sh(
            ["g++", "-O1", "-std=c++17", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
             "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", s, "-o", o, "-w"]))

    def runtime(self):
        ss = [HERE + "/rt.cpp", HERE + "/driver.cpp"]
        k = fh(*ss, HERE + "/rt.h", HERE + "/node.h")[:16]
        objs = []
        def one(s):
            return cached("%s/%s-%s.o" % (CACHE, os.path.basename(s)[:-4], k), lambda o: sh(
                ["g++", "-O2", "-g", "-std=c++17", "-fPIC", "-I" + Z3 + "/include", "-c", s, "-o", o, "-w"]))
        with cf.ThreadPoolExecutor(2) as tp:
            objs = list(tp.map(one, ss))
        return cached("%s/libsymxrt-%s.so" % (CACHE, k), lambda o: sh(
            ["g++", "-shared", "-o", o] + objs + ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-ldl"]))

    def sxdata(self):
        s = HERE + "/sxdata.c"
        return cached("%s/sxdata-%s.o" % (CACHE, fh(s)[:16]), lambda o: sh(["gcc", "-O1", "-c", "-fno-pic", "-fno-builtin", s, "-o", o, "-w"]))

    def pch(self, sym):
        fl = SYM if sym else NAT
        k = self.key(self.hh, fl)
        return cached("%s/pch2-%s.pch" % (CACHE, k), lambda o: sh([CXX] + fl + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", HERE + "/pch.h", "-o", o]))

    def obj(self, src, sym, extra=(), usepch=True):
        fl = list(SYM if sym else NAT) + list(extra)
        k = self.key(self.hh, fl, src, fh(src), fh(HERE + "/SymxPass.cpp") if sym else "", usepch,
                     fh(*sorted(glob.glob(VERIF + "/harness/*.h"))) if src.startswith(VERIF + "/harness") else "")
        def mk(o):
            c = [CXX] + fl
            if sym:
                c += ["-fpass-plugin=" + self.fut("plugin", self.plugin).result()]
            if usepch:
                c += ["-include-pch", self.fut("pch%d" % sym, lambda: self.pch(sym)).result()]
            sh(c + ["-c", src, "-o", o])
        return cached("%s/%s-%s.o" % (CACHE, os.path.splitext(os.path.basename(src))[0], k), mk)

    def build(self, harness, out, sym=True, tus=None):
        """harness: list of sources.  tus: base names to include (None: all)."""
        t0 = time.time()
        if sym:
            self.fut("plugin", self.plugin); rt = self.fut("rt", self.runtime)
        self.fut("pch%d" % sym, lambda: self.pch(sym))
        srcs = all_tus()
        if tus is not None:
            known = set(tus[1])                 # units that existed when the set was recorded; newer ones are always encoded
            keep = set(tus[0])
            srcs = [s for s in srcs if (lambda n: n in keep or n not in known)(os.path.splitext(os.path.basename(s))[0])]
        jobs = []
        if sym:
            jobs.append((HERE + "/fmtimpl.cc", (), False)); jobs.append((HERE + "/stdinst.cc", ("-D_GLIBCXX_EXTERN_TEMPLATE=0",), False)); jobs.append((HERE + "/models.cpp", (), False))
        else:
            jobs.append((HERE + "/fmtimpl.cc", (), False)); jobs.append((HERE + "/symx_native.cpp", (), False))
        jobs += [(h, ("-fno-access-control",) + (("-DSX_SYM",) if sym else ()), True) for h in harness]
        big = {"PdfDeclarationsPrivate": 0, "PdfEncrypt": 1, "PdfDocument": 2, "PdfEncoding": 3, "PdfIndirectObjectList": 4}
        srcs.sort(key=lambda s: big.get(os.path.splitext(os.path.basename(s))[0], 9))
        jobs += [(s, (), True) for s in srcs]
        # plugin / pch first: their futures must not be starved by tasks waiting for them
        for n in ("plugin", "pch%d" % sym):
            if n in self.f: self.f[n].result()
        objs = [f.result() for f in [self.pool.submit(self.obj, s, sym, e, p) for s, e, p in jobs]]
        if sym:
            cmd = ["g++", "-no-pie", "-o", out] + objs + [self.fut("sxdata", self.sxdata).result(), rt.result(), "-Wl,-rpath," + CACHE]
        else:
            cmd = [CXX, "-fsanitize=address", "-no-pie", "-o", out] + objs
        if tus is not None:
            cmd += ["-Wl,--unresolved-symbols=ignore-all"]
        sh(cmd + LIBS)
        self.log("built %s (%s, %d translation units) in %.1f s" % (os.path.basename(out), "symbolic" if sym else "replay", len(srcs), time.time() - t0))
        return [os.path.splitext(os.path.basename(s))[0] for s in srcs]


if __name__ == "__main__":
    b = Build(print)
    sym = "-n" not in sys.argv
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    b.build(a[1:], a[0], sym)
