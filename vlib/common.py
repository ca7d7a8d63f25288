"""Shared machinery: building /repo, running TLC, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TLCJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

LIBSRC = ["lib/convert.cpp", "lib/debug.cpp", "lib/error.cpp", "lib/input.cpp", "lib/matcher.cpp",
          "lib/pattern.cpp", "lib/posix.cpp", "lib/unicode.cpp", "lib/utf8.cpp",
          "unicode/block_scripts.cpp", "unicode/language_scripts.cpp", "unicode/letter_scripts.cpp"]

# build variants of the library under test
VARIANTS = {
    # what the repository's own build does (build.sh: --disable-avx)
    "std":   ["-O1", "-g", "-msse2", "-DHAVE_SSE2"],
    # portable code paths: no SIMD at all
    "port":  ["-O1", "-g"],
    # AVX2 + AVX512BW paths compiled in (selected at run time by reflex::HW)
    # std as position independent code (scanners in shared libraries)
    "pic":   ["-O1", "-g", "-msse2", "-DHAVE_SSE2", "-fPIC"],
    "avx":   ["-O1", "-g", "-mavx2", "-DHAVE_AVX2"],
    # tiny I/O block: exercises buffer shifting/growing with small inputs (guarded hook)
    "small": ["-O1", "-g", "-msse2", "-DHAVE_SSE2", "-DREFLEX_VERIF_BLOCK=32"],
    # sanitized, tiny block
    "asan":  ["-O1", "-g", "-msse2", "-DHAVE_SSE2", "-DREFLEX_VERIF_BLOCK=32",
              "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-sanitize=alignment,shift"],
}


class CheckError(Exception):
    """machinery failure: the check gives no verdict"""


_hdr = None


def _headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in ("include/reflex", "fuzzy"):
            d = os.path.join(REPO, root)
            for base, _, files in sorted(os.walk(d)):
                for f in sorted(files):
                    if f.endswith(".h"):
                        p = os.path.join(base, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def _compile(src, flags):
    """compile src (absolute path) to a cached object, return its path"""
    h = hashlib.sha256()
    h.update(_headers_hash().encode())
    h.update(open(src, "rb").read())
    d = os.path.dirname(src)
    if src.startswith(HARN):
        for f in sorted(os.listdir(HARN)):
            if f.endswith((".h", ".hpp")):
                h.update(open(os.path.join(HARN, f), "rb").read())
    h.update(" ".join(flags).encode())
    h.update(src.encode())
    obj = os.path.join(CACHE, h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        os.makedirs(CACHE, exist_ok=True)
        tmp = obj + ".%d.tmp.o" % os.getpid()
        cmd = ["g++", "-std=c++17", "-w", "-c", "-I" + os.path.join(REPO, "include"),
               "-I" + os.path.join(REPO, "fuzzy"), "-I" + HARN] + flags + [src, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


def build(harness, variant="std", libs=(), extra=(), with_tool=False):
    """build /verif/harness/<harness>.cpp with the library from /repo's working tree"""
    flags = VARIANTS[variant] + list(extra)
    srcs = [os.path.join(REPO, s) for s in LIBSRC]
    hs = os.path.join(HARN, harness + ".cpp")
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: _compile(s, VARIANTS[variant]) if s != hs else _compile(s, flags), srcs + [hs]))
    key = hashlib.sha256((" ".join(objs) + " ".join(libs)).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, "%s-%s-%s" % (harness, variant, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = ["g++"] + flags + objs + list(libs) + ["-lpthread", "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


def workdir(tag):
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix="run-%s-" % tag, dir=BUILD)


def build_tool():
    """the reflex command from /repo's working tree"""
    flags = VARIANTS["std"]
    srcs = [os.path.join(REPO, s) for s in LIBSRC + ["src/reflex.cpp"]]
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: _compile(s, flags), srcs))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, "reflex-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + objs + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("link failed: reflex\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


def build_lib(variant="std"):
    """object files of the library (for linking generated scanners)"""
    srcs = [os.path.join(REPO, s) for s in LIBSRC]
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda s: _compile(s, VARIANTS[variant]), srcs))


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        # 0 ok; 12 safety violation; 13 liveness; 11 deadlock; 10 assumption; others: errors
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = rc in (10, 11, 12, 13)


def tlc(module, cfg, wd, env=None, workers=1, timeout=600, extra=(), mem="1500m", jvm=()):
    """run TLC on spec/<module>.tla with cfg text; returns TLCResult"""
    cfgp = os.path.join(wd, "%s-%d-%d.cfg" % (module, os.getpid(), random.randrange(1 << 30)))
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix="meta-", dir=wd)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss64m", "-Xmx" + mem, "-XX:-UsePerfData", "-XX:TieredStopAtLevel=4",
           "-DTLA-Library=" + SPEC] + list(jvm) + ["-cp", TLCJAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=wd, timeout=timeout)
        rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        rc, out = 999, (ex.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(rc, out, time.time() - t)


def pmap(fn, items, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def load_known():
    """known findings: lines 'property=<id> key=<key> <description>' """
    res = {}
    p = os.path.join(VERIF, "known", "findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res


class Report:
    """collects verdicts of one check run, writes the evidence, prints the outcome"""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.violations = []      # (key, text)
        self.known_hit = {}
        self.cov = {}
        self.assumptions = []
        self.known = load_known().get(prop, {})

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and k in self.cov:
                self.cov[k] += v
            elif isinstance(v, list) and k in self.cov:
                self.cov[k] += v
            else:
                self.cov[k] = v

    def violation(self, key, text, replay=None):
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.violations.append((key, text, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = None
        if self.violations:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump([{"key": k, "text": t, "replay": r} for k, t, r in self.violations[:int(os.environ.get("NVIOL", 50))]], f, indent=1)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, d in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, d))
        for k, t, _ in self.violations[:10]:
            print("  violation [%s] %s" % (k, t[:1500]))
        print("property=%s tier=%s wall=%.1fs coverage=%s" % (self.prop, self.tier, ev["wall_s"],
              json.dumps({k: v for k, v in self.cov.items() if k != "samples"})[:1500]))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
