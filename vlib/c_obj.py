"""R16 saved FSMs, R17 copied, assigned and reused patterns and matchers: sessions are behaviours of Matcher.tla (ObjTrace.tla)"""
import json, os, random, re, subprocess
from . import common as C, regen, sess, c_anchor, c_hist, c_lazy
from .c_match import gen_pattern

CFG = "INIT InitO\nNEXT StepO\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"


class Pat:
    __slots__ = ("g", "ids", "regex", "popts", "ab", "asserts", "neg", "look", "tie", "half", "id", "kind", "lazy")

    def __init__(self, rng, i):
        self.id = i
        self.asserts, self.neg, self.look, self.half, self.popts = [], [], [], False, ""
        self.lazy = []
        r = rng.random()
        multi = rng.random() < .7
        if r < .06:
            self.g, self.ids, self.regex, self.popts, self.ab, self.lazy = c_lazy.gen(rng)
        elif r < .5:
            self.g, self.ids, self.regex, self.popts, self.ab = gen_pattern(rng)
        elif r < .58:
            # string patterns have their own search methods
            self.ab = rng.choice([b"ab", b"abc", b"aAbB"])
            g = regen.Gen(rng, alphabet=self.ab, wide=0)
            n = rng.choice([1, 1, 1, 2, 3])
            ids, txt = [], []
            m = rng.choice([1, 2, 3, 5, 8, 12])
            for _ in range(n):
                w = bytes(rng.choice(self.ab) for _ in range(m))
                ids.append(g.node(op="cat", kids=[g.node(op="leaf", set=[[c, c]]) for c in w]) if m > 1 else g.node(op="leaf", set=[[w[0], w[0]]]))
                txt.append(w)
            self.g, self.ids, self.regex = g, ids, b"|".join(txt)
        elif r < .62:
            # a long row of anchors that hold at the end of a word
            self.ab = b"ab\n"
            g = regen.Gen(rng, alphabet=b"ab", wide=0)
            x = c_anchor.part(g, rng, rng.choice([0, 1]))
            ks = [rng.choice(["$", "$", "b", ">"]) for _ in range(rng.randint(5, 9))]
            kinds = {"$": "eol" if multi else "eob", "b": "wb", ">": "eow"}
            kids = [x[0]] + [g.node(op="assert", kind=kinds[k]) for k in ks]
            self.g, self.ids = g, [g.node(op="cat", kids=kids)]
            self.asserts = sorted({kinds[k] for k in ks})
            self.regex = (x[1] + "".join(k if k == "$" else "\\" + k for k in ks)).encode("latin1")
        elif r < .8:
            self.g, self.ids, p, self.ab, self.asserts = c_anchor.gen(rng, multi, False)
            self.regex = p
        elif r < .9:
            self.g, self.ids, self.regex, self.ab, self.asserts, self.look, _ = c_anchor.gen_look(rng, multi)
        else:
            self.g, self.ids, self.regex, self.ab, self.neg = c_anchor.gen_neg(rng, multi)
        if r >= .58 and multi:
            self.popts = "m"
        self.regex = sess.rexbytes(self.regex)
        self.tie = bool(self.asserts) and len(self.ids) > 1

    def model(self):
        return {"nodes": self.g.nodes, "alts": self.ids, "asserts": list(self.asserts), "neg": list(self.neg), "look": [list(x) for x in self.look], "pref": 0, "half": False, "lazy": list(self.lazy), "tie": self.tie}


class Ses:
    __slots__ = ("pats", "hows", "mh", "A", "N", "T", "src", "inps", "sched", "ops", "ev")

    def line(self, i):
        mo = ("A" if self.A else "") + ("N" if self.N else "") + ("T=%d" % self.T if self.T != 8 else "")
        return "%d\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%s;%s\n" % (i, ",".join(p.regex.hex() for p in self.pats), ",".join(p.popts for p in self.pats), mo, self.src,
            ",".join(x.hex() for x in self.inps), ",".join(map(str, self.sched)), " ".join(self.ops), ",".join(self.hows), self.mh)

    def model(self):
        return {"PS": [p.model() for p in self.pats], "O": {"A": self.A, "N": self.N, "T": self.T}, "I": list(self.inps[0]), "J": [list(x) for x in self.inps], "ev": self.ev}

    def describe(self):
        return {"patterns": [[p.regex.decode("latin1"), p.popts] for p in self.pats], "pattern_objects": self.hows, "matcher_object": self.mh, "options": [self.A, self.N, self.T],
                "inputs": [x.decode("latin1") for x in self.inps], "source": self.src, "schedule": self.sched, "operations": self.ops}


def text(rng, ps, maxlen):
    out = b""
    for p in ps * 2:
        out += sess.text(rng, p.g.nodes, p.ids, p.ab, rng.choice([0, 1, 2, 3, 5]), noise=b" \n_" if rng.random() < .5 else p.ab, pnoise=rng.choice([.05, .3]), maxlen=maxlen)
    return out[:maxlen * 2]


def session(rng, pats, saved):
    s = Ses()
    s.ev = None
    k = 1 if saved else rng.choice([1, 1, 2, 3])
    s.pats = [rng.choice(pats) for _ in range(k)]
    if saved:
        s.hows = ["%s%d" % (rng.choice("tf"), p.id) + rng.choice(["", "", "", "c"]) for p in s.pats]
        s.mh = "d"
    else:
        s.hows = [rng.choice(["", "", "c", "c", "a", "b", "A", "B", "v", "cc", "c=", "av"]) for p in s.pats]
        s.mh = rng.choice("ddkK==pPrsS")
        if s.mh in "sS" and (s.pats[0].popts or not s.pats[0].regex):
            s.mh = "p"
    plain = not any(p.asserts or p.neg or p.look for p in s.pats)
    s.A = not plain and rng.random() < .1
    s.N = plain and rng.random() < .2
    s.T = rng.choice([8, 8, 8, 4, 1])
    s.inps = [text(rng, s.pats, rng.choice([5, 12, 25])) for _ in range(rng.choice([1, 2]) if saved else rng.choice([1, 1, 2, 3]))]
    s.src = c_hist.source(rng)
    if s.src == "C":
        s.inps[0] = s.inps[0].replace(b"\0", b"@")
    s.sched = [rng.choice([1, 2, 3, 5, 100]) for _ in range(3)]
    o = rng.choice("SFFP" if plain else "SFFP")
    if plain and rng.random() < .3:
        s.ops = c_hist.hist_ops(rng, rng.choice([5, 10]), s.src == "p", s.src == "p" or rng.random() < .6, s.inps[0])
    elif rng.random() < .1:
        s.ops = ["M"] + (["M"] if rng.random() < .3 else [])
        if len(s.inps) > 1:
            s.ops += ["R%s%d" % (rng.choice("cgwpBifs"), rng.randrange(len(s.inps))), o + "*"]
        return s
    elif len(s.pats) == 1 and rng.random() < .6:
        s.ops = [o + rng.choice(["*", "!*"]), o]
    else:
        s.ops = [o + rng.choice(["", "", "!"]) for _ in range(rng.randint(2, 8))]
    # switch patterns and inputs on the way
    if len(s.pats) > 1:
        for _ in range(rng.choice([1, 2, 4])):
            j = rng.randrange(len(s.ops) + 1)
            # not between more() and scan()
            if j == 0 or s.ops[j - 1] != "m":
                s.ops.insert(j, "Q%d" % rng.randrange(len(s.pats)))
    if len(s.inps) > 1:
        for _ in range(rng.choice([1, 1, 2])):
            j = rng.randrange(len(s.ops) + 1)
            n = rng.randrange(len(s.inps))
            # no edits of data scanned in place
            q = rng.choice("cgwBifs" if any(o[0] in "uU" for o in s.ops) else "cgwpBifs")
            s.ops.insert(j, "R%s%d" % (q, n))
    s.ops.append(o + "*")
    return s


def validate(wd, ss, tag):
    ss = [s for s in ss if s.ev is not None]
    ss.sort(key=lambda s: -sum(map(len, s.inps)) * len(s.ev))
    n = min(C.NCPU, max(1, len(ss)))

    def run(ip):
        i, part = ip
        f = os.path.join(wd, "obj-%s-%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for s in part:
                fh.write(json.dumps(s.model()) + "\n")
        r = C.tlc("ObjTrace", CFG, wd, env={"TRACE": f}, workers=1, timeout=820, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC ObjTrace failed: %s" % r.out[-3000:])
        bad = []
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),(.*?)(?=\n<<|\n[A-Z]|$)', r.out, re.S):
            bad.append((part[int(m.group(1)) - 1], int(m.group(2)), re.sub(r"\s+", " ", m.group(3))[:500]))
        return bad, r.distinct, r.generated
    bad, st, tr = [], 0, 0
    for b, s, t in C.pmap(run, [(i, ss[i::n]) for i in range(n)]):
        bad += b
        st += s
        tr += t
    return bad, st, tr, sum(len(s.ev) for s in ss)


def execute(exe, ss, n=C.NCPU):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99")

    def run(part):
        bad, todo = [], list(part)
        while todo:
            try:
                p = subprocess.run([exe], input="".join(s.line(i) for i, s in enumerate(todo)).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=30 + len(todo) * .2)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as ex:
                rc, out, err = -99, ex.stdout or b"", b"timeout: no progress"
            k = 0
            for l in out.split(b"\n"):
                if not l.endswith(b"}"):
                    continue
                try:
                    r = json.loads(l)
                except ValueError:
                    break
                todo[r["id"]].ev = r.get("ev")
                k = r["id"] + 1
            if rc == 0 and k >= len(todo):
                break
            k = min(k, len(todo) - 1)
            bad.append((todo[k], "exit code %s %s" % (rc, err[-1500:].decode("latin1"))))
            todo[k].ev = None
            todo = todo[k + 1:] if len(bad) < 8 else []
        return bad
    res = []
    for b in C.pmap(run, [ss[i::n] for i in range(n)]):
        res += b
    return res


def saved_driver(rep, wd, pats, kinds, variant="std"):
    """the session driver with the saved FSMs of the patterns compiled in"""
    saver = C.build("patsave", variant)
    tab = {}
    req = ""
    for p in pats:
        for kd in "tf":
            i = 2 * p.id + (kd == "f")
            tab[i] = (p, kd + kinds[p.id])
            req += "%d\t%s\t%s\t%s\t%s\n" % (i, p.regex.hex(), p.popts, kd + kinds[p.id], os.path.join(wd, "x%d.cpp" % i))
    r = subprocess.run([saver], input=req.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise C.CheckError("patsave failed: %s" % r.stderr.decode("latin1")[-800:])
    bad = {int(l.split()[0]) for l in r.stdout.decode().splitlines() if l.split()[1] != "0"}
    ids = [i for i in sorted(tab) if i not in bad]
    for i in bad:
        rep.violation("save:%s" % tab[i][0].regex.decode("latin1"), "pattern %r rejected" % tab[i][0].regex, {})
    units = [ids[k::48] for k in range(48)]

    def comp(kv):
        k, part = kv
        src = '#include <reflex/matcher.h>\n#include "saved.h"\n'
        for i in part:
            pr = ", reflex_pred_x%d" % i if "p" in tab[i][1] else ""
            src += '#include "x%d.cpp"\nstatic Saved saved_%d(%d, []() { return new reflex::Pattern(reflex_code_x%d%s); });\n' % (i, i, i, i, pr)
        f = os.path.join(wd, "u%d.cpp" % k)
        open(f, "w").write(src)
        p = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-c", "-I" + os.path.join(C.REPO, "include"), "-I" + C.HARN, f, "-o", f[:-3] + "o"] + [x for x in C.VARIANTS[variant] if x.startswith(("-D", "-m", "-fs", "-fno"))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode("latin1"), f[:-3] + "o", part
    objs = []
    for rc, out, o, part in C.pmap(comp, list(enumerate(units))):
        if rc:
            rep.violation("compile", "saved patterns do not compile: %s" % out[:1500], {})
        else:
            objs.append(o)
    drv = C._compile(os.path.join(C.HARN, "mdrv.cpp"), C.VARIANTS[variant])
    exe = os.path.join(wd, "mdrv")
    p = subprocess.run(["g++"] + C.VARIANTS[variant] + [drv] + objs + C.build_lib(variant) + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise C.CheckError("link failed: %s" % p.stdout.decode("latin1")[-2000:])
    return exe


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 67867967 + int(prop[1:]))
    q = tier == "quick"
    if prop == "R16":
        np = int(os.environ.get("NN", 600 if q else 4000))
        groups = []
        for b in range(0, np, 1000):
            pats = [Pat(rng, i) for i in range(min(1000, np - b))]
            kinds = [rng.choice(["", "p", "p"]) for p in pats]
            exe = saved_driver(rep, wd, pats, kinds)
            ss = []
            for i in range(len(pats) * 24):
                s = session(rng, pats, True)
                s.hows = [h[0] + "%d" % (2 * p.id + (h[0] == "f")) + h.lstrip("tf0123456789") for h, p in zip(s.hows, s.pats)]
                ss.append(s)
            judge(rep, wd, exe, ss, "saved")
    else:
        n = int(os.environ.get("NN", 10000 if q else 60000))
        pats = [Pat(rng, i) for i in range(n // 6)]
        ss = [session(rng, pats, False) for _ in range(n)]
        # the sanitized library has small blocks: lines are shorter than those
        for s in ss[0::2]:
            s.inps = [c_hist.wrap_lines(x, 26) for x in s.inps]
        judge(rep, wd, C.build("mdrv", "asan"), ss[0::2], "asan")
        judge(rep, wd, C.build("mdrv", "std"), ss[1::2], "std")
    rep.add(samples=[s.describe() for s in ss[:8]])
    return rep


def judge(rep, wd, exe, ss, tag):
    for s, t in execute(exe, ss):
        if execute(exe, [s], 1):
            rep.violation("%s:crash" % tag, "crash in %s: %s" % (json.dumps(s.describe()), t), s.describe())
    bad, st, tr, ne = validate(wd, ss, tag)
    rep.add(states=st, transitions=tr, events=ne, traces_validated_against_impl=sum(1 for s in ss if s.ev is not None))
    seen = set()
    for s, l, e in bad:
        key = "%s:%s" % (tag, s.pats[0].regex.decode("latin1"))
        if key not in seen:
            seen.add(key)
            ev = s.ev[l - 1]
            rep.violation(key, "%s: event %d %s; specification: %s" % (json.dumps(s.describe()), l, json.dumps(ev), e), s.describe())
