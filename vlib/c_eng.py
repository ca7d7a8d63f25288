"""R22: the Boost, std and PCRE2 matchers follow the same contract (Matcher.tla) as the RE/flex matcher."""
import os, random, re
from . import common as C, regen, sess

LIBS = ("-lboost_regex", "-lpcre2-8")
# engine letter -> leftmost longest
ENGINES = {"P": True, "X": False, "B": False, "b": False, "E": False, "R": False, "U": False}

# Boost reports a shorter match when a partial match ends at the end of the buffered text, std::regex has no partial matching: buffered input
SOURCES = {e: "cgBCfpsin" if e in "RU" else "cBCfps" if e in "PBb" else "cBCfpsin" for e in ENGINES}


class Simple(regen.Gen):
    """regexes in the syntax that all engines share, over characters below 128"""

    def pick(self):
        return self.r.choice(self.ab)

    def char_text(self, c, inlist=False):
        s = chr(c)
        if c == 10:
            return "\\n"
        if c == 9:
            return "\\t"
        return "\\" + s if s in ".^$()[]{}?*+|\\/-" else s

    def leaf(self):
        r = self.r.random()
        if r < .65:
            c = self.pick()
            return self.node(op="leaf", set=self.fold([[c, c]])), self.char_text(c), 3
        if r < .72:
            return self.node(op="leaf", set=[[0, 9], [11, 255]]), ".", 3
        if r < .78:
            e = self.r.choice("dws")
            if self.r.random() < .3:
                return self.node(op="leaf", set=regen.compl(regen.ESCS[e])), "\\" + e.upper(), 3
            return self.node(op="leaf", set=regen.norm(regen.ESCS[e])), "\\" + e, 3
        cs = sorted({self.pick() for _ in range(self.r.choice([1, 2, 2, 3]))})
        if self.r.random() < .3:
            a, b = self.r.choice([("a", "c"), ("0", "9"), ("x", "z"), ("b", "d")])
            body, st = a + "-" + b, [[ord(a), ord(b)]]
        else:
            body, st = "".join(self.char_text(c, True) for c in cs), [[c, c] for c in cs]
        if self.r.random() < .25:
            return self.node(op="leaf", set=regen.compl(self.fold(st))), "[^" + body + "]", 3
        return self.node(op="leaf", set=self.fold(st)), "[" + body + "]", 3

    def lit(self):
        cs = [self.r.choice(self.ab) for _ in range(self.r.choice([1, 2, 2, 3, 4]))]
        ids = [self.node(op="leaf", set=self.fold([[c, c]])) for c in cs]
        return (ids[0] if len(ids) == 1 else self.node(op="cat", kids=ids)), "".join(self.char_text(c) for c in cs), 2

    def group(self, t):
        return t[0], self.r.choice(["(%s)", "(?:%s)"] if self.nocap else ["(%s)"]) % t[1], 3


def meets(a, b):
    return any(max(x[0], y[0]) <= min(x[1], y[1]) for x in a for y in b)


def glushkov(nodes, nid):
    """(nullable, first, last, follow pairs) over the positions of the expanded expression; None when too large or when an alternative is nullable"""
    pos, follow = [], {}

    def go(n):
        nd = nodes[n - 1]
        if nd["op"] == "leaf":
            pos.append(nd["set"])
            if len(pos) > 60:
                raise OverflowError
            k = len(pos) - 1
            follow[k] = set()
            return False, {k}, {k}
        if nd["op"] == "cat":
            nl, f, l = True, set(), set()
            for k in nd["kids"]:
                n2, f2, l2 = go(k)
                for p in l:
                    follow[p] |= f2
                f = f | f2 if nl else f
                l = l | l2 if n2 else l2
                nl = nl and n2
            return nl, f, l
        if nd["op"] == "alt":
            nl, f, l = False, set(), set()
            for k in nd["kids"]:
                n2, f2, l2 = go(k)
                if n2:
                    raise OverflowError
                f, l = f | f2, l | l2
            return nl, f, l
        if nd["op"] == "rep":
            lo, hi = nd["lo"], nd["hi"]
            nl, f, l = True, set(), set()
            reps = max(lo, 1) if hi < 0 else hi
            for i in range(reps):
                n2, f2, l2 = go(nd["kids"][0])
                if n2:
                    raise OverflowError
                for p in l:
                    follow[p] |= f2
                f = f | f2 if nl else f
                l = l | l2 if i >= lo else l2
                nl = nl and i >= lo
                if hi < 0 and i == reps - 1:
                    for p in l2:
                        follow[p] |= f2
            if lo == 0:
                nl = True
            return nl, f, l
        raise OverflowError
    try:
        nl, f, l = go(nid)
    except OverflowError:
        return None
    return nl, f, l, follow, pos


def deterministic(nodes, alts):
    """every text has at most one way to match: then the first match of a backtracking engine is the longest one"""
    firsts = []
    for a in alts:
        g = glushkov(nodes, a)
        if g is None or g[0]:
            return False
        _, f, _, follow, pos = g
        for s in [f] + list(follow.values()):
            s = sorted(s)
            if any(meets(pos[x], pos[y]) for i, x in enumerate(s) for y in s[i + 1:]):
                return False
        firsts.append([iv for p in f for iv in pos[p]])
    return not any(meets(x, y) for i, x in enumerate(firsts) for y in firsts[i + 1:])


def nested(nodes, ids, inside):
    for i in ids:
        nd = nodes[i - 1]
        u = nd["op"] == "rep" and (nd["hi"] < 0 or nd["hi"] > 1)
        if u and inside or nested(nodes, nd.get("kids") or [], inside or u):
            return True
    return False


def gen(rng, longest, nocap):
    while True:
        g = Simple(rng, alphabet=rng.choice([b"ab", b"abc", b"abcd", b"abcdxyz", b"ab\n", b"a b", b"ab,;"]), lits=rng.choice([.1, .3, .5]), maxrep=2)
        g.nocap = nocap
        n = rng.choice([1, 1, 2, 2, 3, 4])
        ids, txt = g.alts(n, rng.choice([0, 1, 2, 2]) if n < 3 else rng.choice([0, 1, 1]))
        gl = [glushkov(g.nodes, i) for i in ids]
        if any(x is None or x[0] for x in gl):
            continue
        if not longest and not deterministic(g.nodes, ids):
            continue
        # Boost's posix matching of nested unbounded repeats gives up (complexity)
        if longest and nested(g.nodes, ids, False):
            continue
        groups, k = [], 1
        for t in txt:
            groups.append(k)
            k += 1 + len(re.findall(r"(?<!\\)\((?!\?)", t))
        return g, ids, "|".join("(%s)" % t for t in txt), groups


def clean(inp, eng):
    """ASCII; the dot of Boost and std::regex excludes more line separators than newline"""
    inp = bytes(c if c < 128 else 33 + c % 90 for c in inp)
    return inp if eng in "RU" else bytes(120 if c in (11, 12, 13) else c for c in inp)


def mixed(rng, n, inp, noedit, groups):
    """operations on the matched text and on the input between the matches"""
    ops, m0, edited = [], rng.choice("SSFFP"), False
    both = m0 != "P" and rng.random() < .25
    last = ""
    while len(ops) < n:
        r = rng.random()
        if r < .5:
            o = rng.choice("SF") if both else m0
        elif r < .6:
            o = "i"
        elif r < .66:
            o = "k"
        elif r < .74:
            o = "u%d" % rng.choice(b"ab x") if not noedit else None
        elif r < .80:
            o = "c%d" % (rng.choice(inp) if inp else 97)
        elif r < .86:
            o = "l%d" % rng.choice([0, 1, 1, 2, 3]) if last in "SF" and last else None
        elif r < .92:
            o = "t" if last in "SF" and last else None
        elif r < .955:
            o = rng.choice(["G", "g0"] + ["g%d" % g for g in groups]) if last and last in "SF" else None
        elif r < .98:
            o = rng.choice("eh")
        else:
            o = "r"
        if o:
            ops.append(o)
            if o[0] in "SFPiuclr":
                last = o[0]
    return ops


class Sess(sess.Session):
    __slots__ = ("groups",)


def execute(exe, ss):
    cr = sess.execute(exe, ss)
    for s in ss:
        if s.ev is None:
            continue
        back = {g: i + 1 for i, g in enumerate(s.groups)}
        last, end = None, None
        for k, e in enumerate(s.ev):
            if e["o"] in "SFP":
                # a failed match has no text to use, and a failed search no position to go on from
                if last is not None and last["r"] == 0 and last["o"] in "FP":
                    end = k
                    break
                last = e
            elif e["o"] in "ltqrGg" and (last is None or last["r"] == 0) or last is not None and last["r"] == 0 and last["o"] in "FP":
                end = k
                break
            if e["o"] == "g":
                e["a"] = back.get(e["a"], e["a"])
            if e["o"] in "SFPG":
                e["r"] = back.get(e["r"], e["r"] if e["r"] in (0, 2000000001) else 900000000 + e["r"])
                # where the text of a failed match is, is not specified
                if e["r"] == 0:
                    e["p"] = 0
                    e["s"] = 0
                    e["x"] = []
        if end is not None:
            s.ev = s.ev[:end]
    return cr


def judge(rep, wd, exe, ss, tag):
    for s, t in execute(exe, ss):
        if execute(exe, [s]):
            rep.violation("eng:crash:%s" % s.popts, "engine %s: crash in %s: %s" % (s.popts, s.describe(), t), s.describe())
    for s in ss:
        if s.ev is None:
            rep.violation("eng:reject:%s:%s" % (s.popts, s.regex.decode()), "engine %s rejects regex %r" % (s.popts, s.regex.decode()), s.describe())
    bad, st, tr, ne = sess.validate(wd, ss, tag)
    rep.add(states=st, transitions=tr, events=ne, traces_validated_against_impl=sum(1 for s in ss if s.ev is not None))
    for s, l, e in bad:
        rep.violation("eng:%s:%s:%s" % (s.popts, s.regex.decode("latin1"), s.inp.decode("latin1")), "engine %s " % s.popts + sess.show(s, l, e), s.describe())


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 2749 + 22)
    n = int(os.environ.get("NN") or (6000 if tier == "quick" else 40000))
    exe = C.build("engdrv", libs=LIBS)
    ss = []
    engines = os.environ.get("ENG") or "PXBbERU"
    for i in range(n):
        for eng in engines:
            g, ids, pat, groups = gen(rng, ENGINES[eng], eng not in "X")
            for j in range(2):
                inp = sess.text(rng, g.nodes, ids, g.ab, rng.choice([0, 1, 2, 3, 5, 8]), pnoise=rng.choice([.1, .4]), maxlen=rng.choice([6, 20, 60]), nul=False)
                inp = clean(inp, eng)
                src = os.environ.get("SRC") or rng.choice(SOURCES[eng])
                op = rng.choice("SFPM")
                ops = {"S": ["S*", "i"] * 12, "F": ["F*!"], "P": ["P*!"], "M": ["M"]}[op]
                if rng.random() < .5:
                    ops = mixed(rng, rng.choice([4, 8, 14]), inp, src == "p", groups)
                    # all of the input must be buffered before the first match
                    while eng in "PBb" and src not in "pB" and ops and ops[0][0] == "u":
                        ops.pop(0)
                s = Sess(g.nodes, ids, pat.encode(), inp, ops, eng, src=src, sched=[rng.choice([1, 2, 3, 5, 100]) for _ in range(3)], tie=ENGINES[eng])
                if src == "n":
                    s.src = "n%d" % rng.choice([1, 2, 3, 4, 7, 16])
                s.groups = groups
                ss.append(s)
    # a small buffer: shifting and growing it between the matches
    big = []
    exe2 = C.build("engdrv", "small", libs=LIBS)
    for i in range(n // 8):
        for eng in engines:
            g, ids, pat, groups = gen(rng, ENGINES[eng], eng not in "X")
            inp = sess.text(rng, g.nodes, ids, g.ab, rng.choice([10, 30, 60]), pnoise=rng.choice([.1, .4]), maxlen=rng.choice([80, 200, 300]), nul=False)
            inp = clean(inp, eng)
            src = rng.choice([x for x in SOURCES[eng] if eng not in "PBb" and x != "p" or x == "B"])
            op = rng.choice("SFP")
            ops = {"S": ["S*", "i"] * 12, "F": ["F*!"], "P": ["P*!"]}[op]
            if rng.random() < .5:
                ops = mixed(rng, rng.choice([10, 20, 40]), inp, False, groups)
            s = Sess(g.nodes, ids, pat.encode(), inp, ops, eng, src=src, sched=[rng.choice([1, 2, 3, 5, 16, 31, 100]) for _ in range(3)], tie=ENGINES[eng])
            if src == "n":
                s.src = "n%d" % rng.choice([1, 2, 3, 4, 7, 16])
            s.groups = groups
            big.append(s)
    judge(rep, wd, exe2, big, "small")
    judge(rep, wd, exe, ss, "eng")
    rep.add(samples=[s.describe() for s in ss[:8]])
    return rep
