"""R02: regexes in Unicode mode, translated by convert() and compiled, match the UTF-8 of what they mean"""
import json, os, random, re
from . import common as C, fsm, regen

SCALARS = [[0, 0xD7FF], [0xE000, 0x10FFFF]]
DATA = json.load(open(os.path.join(C.VERIF, "data", "unicode13.json")))


def inter(a, b):
    out = []
    for l, h in a:
        for x, y in b:
            lo, hi = max(l, x), min(h, y)
            if lo <= hi:
                out.append([lo, hi])
    return regen.norm(out)


def minus(a, b):
    return inter(a, regen.compl(b, 0x10FFFF))


def ucompl(a):
    return minus(SCALARS, a)


def fold(sets):
    out = [list(x) for x in sets]
    for lo, hi in sets:
        for a, b, d in ((65, 90, 32), (97, 122, -32)):
            l, h = max(lo, a), min(hi, b)
            if l <= h:
                out.append([l + d, h + d])
    return regen.norm(out)


def classes():
    cat = DATA["category"]
    cls = {k: v for k, v in cat.items() if k not in ("Co", "Cs")}
    for k in "LMNPSZ":
        cls[k] = regen.norm([x for c, v in cat.items() if c[0] == k for x in v])
    cls["L&"] = regen.norm(cat["Lu"] + cat["Ll"] + cat["Lt"])
    cls["Space"] = regen.norm([[9, 13], [0x85, 0x85]] + cls["Z"])
    cls["Word"] = regen.norm(cls["L"] + cat["Nd"] + cat["Pc"])
    cls["ASCII"] = [[0, 127]]
    cls["Unicode"] = SCALARS
    cls["Non_ASCII_Unicode"] = minus(SCALARS, [[0, 127]])
    long = {"Letter": "L", "Mark": "M", "Number": "N", "Punctuation": "P", "Symbol": "S", "Separator": "Z",
            "Lowercase_Letter": "Ll", "Uppercase_Letter": "Lu", "Titlecase_Letter": "Lt", "Modifier_Letter": "Lm",
            "Other_Letter": "Lo", "Non_Spacing_Mark": "Mn", "Spacing_Combining_Mark": "Mc", "Enclosing_Mark": "Me",
            "Space_Separator": "Zs", "Line_Separator": "Zl", "Paragraph_Separator": "Zp", "Math_Symbol": "Sm",
            "Currency_Symbol": "Sc", "Modifier_Symbol": "Sk", "Other_Symbol": "So", "Decimal_Digit_Number": "Nd",
            "Letter_Number": "Nl", "Other_Number": "No", "Dash_Punctuation": "Pd", "Open_Punctuation": "Ps",
            "Close_Punctuation": "Pe", "Initial_Punctuation": "Pi", "Final_Punctuation": "Pf",
            "Connector_Punctuation": "Pc", "Other_Punctuation": "Po", "Control": "Cc", "Format": "Cf"}
    for k, v in long.items():
        cls[k] = cls[v]
    for k, v in DATA["script"].items():
        cls[k] = v
    for k, v in DATA["block"].items():
        s = inter(v, SCALARS)
        if s:
            cls[k] = s
    return cls


CLS = classes()
ESC = {"d": CLS["Nd"], "s": CLS["Space"], "w": CLS["Word"], "l": CLS["Ll"], "u": CLS["Lu"]}
EDGE = [0, 1, 0x7E, 0x7F, 0x80, 0x81, 0xA0, 0xBF, 0xC0, 0xE9, 0xFF, 0x100, 0x13F, 0x140, 0x3B1, 0x7BF, 0x7C0, 0x7FE, 0x7FF, 0x800, 0x801,
        0x83F, 0x840, 0xFBF, 0xFC0, 0xFFE, 0xFFF, 0x1000, 0x1001, 0x103F, 0x1040, 0x20AC, 0xCFFF, 0xD000, 0xD7FE, 0xD7FF, 0xE000, 0xE001,
        0xFFBF, 0xFFC0, 0xFFFD, 0xFFFF, 0x10000, 0x10001, 0x1003F, 0x10040, 0x10FFF, 0x11000, 0x1F600, 0x1FFBF, 0x1FFFE, 0x20000,
        0x3FFBF, 0x3FFFE, 0x3FFFF, 0x40000, 0x40001, 0x4FFFE, 0xFFFBE, 0xFFFFF, 0x100000, 0x100001, 0x10FFBF, 0x10FFFE, 0x10FFFF]
META = set(".^$()[]{}?*+|\\/\"")


def scalar(c):
    return not 0xD800 <= c <= 0xDFFF and c <= 0x10FFFF


class UGen:
    def __init__(self, rng, flags, inline_i, bigcls=.03):
        self.r, self.f = rng, flags
        self.icase = "i" in flags or inline_i
        self.bigcls = bigcls
        self.nodes = []
        self.valid = "p" in flags
        pool = rng.choice(["ascii", "greek", "mixed", "mixed", "edge", "edge"])
        base = {"ascii": [97, 98, 65, 66, 48, 95], "greek": [0x3B1, 0x3B2, 0x3B3, 97], "mixed": [97, 65, 0xE9, 0x20AC, 0x1F600, 0x3B1, 98],
                "edge": None}[pool]
        self.pool = base or [rng.choice(EDGE) for _ in range(4)]

    def node(self, **kw):
        d = {"op": kw["op"], "set": kw.get("set", []), "kids": kw.get("kids", []), "lo": kw.get("lo", 0), "hi": kw.get("hi", 0),
             "kind": kw.get("kind", "")}
        self.nodes.append(d)
        return len(self.nodes)

    def cp(self, s):
        return self.node(op="leaf", kind="cp", set=regen.norm(s))

    def byte(self, s):
        return self.node(op="leaf", kind="", set=s)

    def pick(self):
        r = self.r.random()
        if r < .75:
            return self.r.choice(self.pool)
        if r < .9:
            return self.r.choice(EDGE)
        while True:
            c = self.r.choice([self.r.randrange(128), self.r.randrange(0x800), self.r.randrange(0x10000), self.r.randrange(0x110000)])
            if scalar(c):
                return c

    def text(self, c, inlist=False):
        """one of the spellings of a code point"""
        r = self.r.random()
        s = chr(c)
        if c == 0:
            return self.r.choice(["\\x00", "\\x{0}", "\\u{0}", "\\000"] + (["\\0"] if not inlist else []))
        raw = c >= 128 or s.isalnum() or (s in "_~,;:=@%&'!<>" and not (inlist and s in ":"))
        if "l" in self.f and s in '"/':
            raw = False
        if s in "~&<>=" and not raw:
            raw = True
        if c >= 128 and r < .55:
            return s
        if raw and c < 128 and r < .85:
            return s
        opts = ["\\x{%x}" % c, "\\u{%X}" % c]
        if c < 256:
            opts += ["\\x%02x" % c, "\\0%03o" % c]
            if c >= 64:
                opts.append("\\%03o" % c)
        if not inlist:
            opts.append("\\o{%o}" % c)
        if "4" in self.f:
            if c < 0x10000:
                opts.append("\\u%04X" % c)
            elif not inlist:
                d = c - 0x10000
                opts.append("\\u%04X\\u%04x" % (0xD800 + (d >> 10), 0xDC00 + (d & 0x3FF)))
        if s in ".^$()[]{}?*+|\\/" and r < .7:
            return "\\" + s
        return self.r.choice(opts)

    def char(self, c):
        return self.cp(fold([[c, c]]) if self.icase else [[c, c]]), self.text(c)

    def cls(self, inlist=False):
        """escape class or category: (text, set)"""
        r = self.r.random()
        big = self.r.random() < self.bigcls
        if r < .5:
            e = self.r.choice("dsds" + ("wlu" if big else ""))
            if e == "u" and (inlist or "4" in self.f):
                e = "l"
            s = ESC[e]
            neg = self.r.random() < .35
            if "n" in self.f:
                neg = False
                if e == "s":
                    s = minus(s, [[10, 10]])
            return "\\" + (e.upper() if neg else e), ucompl(s) if neg else s
        small = [n for n in ("Greek", "Hiragana", "Zs", "Z", "Pc", "Pd", "Nl", "Lt", "Me", "Cyrillic", "ASCII", "Thai", "Space", "Sc", "Ogham",
                             "IsBasicLatin", "IsGreekandCoptic", "Line_Separator", "Non_ASCII_Unicode", "Unicode", "Cc", "Hebrew")]
        n = self.r.choice(list(CLS)) if big else self.r.choice(small)
        s = CLS[n]
        neg = self.r.random() < .35 and n != "Unicode"
        if not neg:
            return ("\\p%s" % n if len(n) == 1 and self.r.random() < .5 else "\\p{%s}" % n), s
        return self.r.choice(["\\P{%s}", "\\p{^%s}"]) % n if not inlist or True else "", ucompl(s)

    def list_(self, ops=True):
        """bracket list: (text, set); set is what it means before final case folding"""
        for _ in range(20):
            items, sets = [], []
            for _ in range(self.r.choice([1, 1, 2, 2, 3])):
                q = self.r.random()
                if q < .5:
                    c = self.pick()
                    items.append(self.text(c, True))
                    sets.append([c, c])
                elif q < .8:
                    a, b = sorted((self.pick(), self.pick()))
                    if a <= 0xD7FF < b:
                        b = 0xD7FF
                    items.append(self.text(a, True) + "-" + self.text(b, True))
                    sets.append([a, b])
                elif q < .88:
                    n = self.r.choice(["alpha", "digit", "alnum", "upper", "lower", "punct", "space", "xdigit", "blank", "word"])
                    items.append("[:%s:]" % n)
                    sets += regen.POSIX[{"xdigit": "XDigit"}.get(n, n.capitalize())]
                else:
                    t, s = self.cls(True)
                    items.append(t)
                    sets += s
            cur = regen.norm(sets)
            body = "".join(items)
            if ops and self.r.random() < .25:
                op = self.r.choice(["||", "&&", "--"])
                t2, s2 = self.list_(False)
                if self.icase and op != "||":
                    op = "||"
                if op == "||":
                    cur = regen.norm(cur + s2)
                elif op == "&&":
                    cur = inter(cur, s2)
                else:
                    cur = minus(cur, s2)
                body += op + t2
            if self.r.random() < .3:
                if self.icase:
                    cur = fold(cur)
                cur = ucompl(cur)
                if "n" in self.f:
                    cur = minus(cur, [[10, 10]])
                body = "^" + body
            if not cur:
                continue
            t = "[" + body + "]"
            if ops and "l" in self.f and self.r.random() < .25:
                op = self.r.choice(["+", "|", "&", "-"]) if not self.icase else self.r.choice("+|")
                t2, s2 = self.list_(False)
                c2 = regen.norm(cur + s2) if op in "+|" else inter(cur, s2) if op == "&" else minus(cur, s2)
                if not c2:
                    continue
                cur = c2
                t += "{%s}" % op + t2
            return t, cur
        return "[a]", [[97, 97]]

    def leaf(self):
        r = self.r.random()
        if r < .5:
            i, t = self.char(self.pick())
            return i, t, 3
        if r < .59:
            # dot and \N: anything up to the next character, malformed input included
            t = "." if r < .57 else "\\N"
            a = self.byte([[0, 255]] if "s" in self.f and t == "." else [[0, 9], [11, 255]])
            b = self.node(op="rep", kids=[self.byte([[0x80, 0xBF]])], lo=0, hi=-1)
            return self.node(op="cat", kids=[a, b]), t, 3
        if r < .61:
            return self.node(op="alt", kids=[self.byte([[0, 255]]), self.cp(SCALARS)]), "\\X", 3
        if r < .63:
            a = self.node(op="cat", kids=[self.cp([[13, 13]]), self.cp([[10, 10]])])
            b = self.cp([[10, 13], [0x85, 0x85], [0x2028, 0x2029]])
            return self.node(op="alt", kids=[a, b]), "\\R", 3
        if r < .70:
            t, s = self.cls()
            return self.cp(s), t, 3
        t, s = self.list_()
        return self.cp(fold(s) if self.icase else s), t, 3

    def lit(self):
        cs = [self.pick() for _ in range(self.r.choice([1, 2, 2, 3, 4]))]
        r = self.r.random()
        if r < .25 and not self.icase:
            qs = [c for c in cs if c >= 32 and c != 127 and chr(c) not in "\\\"" and not chr(c).isspace()]
            if qs:
                ids = [self.cp([[c, c]]) for c in qs]
                s = "".join(map(chr, qs))
                n = self.node(op="cat", kids=ids)
                if "l" in self.f and self.r.random() < .6:
                    return n, '"' + s + '"', 3
                return n, "\\Q" + s + "\\E", 2
        xs = [self.char(c) for c in cs]
        return (self.node(op="cat", kids=[x[0] for x in xs]) if len(xs) > 1 else xs[0][0]), "".join(x[1] for x in xs), 2

    def group(self, t):
        return t[0], self.r.choice(["(%s)", "(%s)", "(?:%s)"]) % t[1], 3

    def rex(self, depth):
        r = self.r.random()
        if depth <= 0 or r < .2:
            return self.leaf()
        if r < .4:
            return self.lit()
        if r < .65:
            ps = [self.rex(depth - 1) for _ in range(self.r.choice([2, 2, 3]))]
            ps = [p if p[2] >= 2 else self.group(p) for p in ps]
            sp = (lambda: self.r.choice(["", " ", "\n"])) if "x" in self.f else (lambda: "")
            cm = self.r.choice(["", "", "", "(?#x y)"]) if "l" not in self.f else ""
            return self.node(op="cat", kids=[p[0] for p in ps]), (sp() + cm).join(p[1] for p in ps), 2
        if r < .75:
            ps = [self.rex(depth - 1) for _ in range(2)]
            return self.node(op="alt", kids=[p[0] for p in ps]), "|".join(p[1] for p in ps), 1
        t = self.rex(depth - 1)
        if t[1][:2] == "\\u" and len(t[1]) == 2 or (t[1] == "." and self.r.random() < .5) or (t[1][-1:].isdigit() and t[1][0] == "\\"):
            t = (t[0], t[1], 2)
        t = t if t[2] >= 3 else self.group(t)
        lo, hi, s = self.r.choice([(0, -1, "*"), (1, -1, "+"), (0, 1, "?"), (2, 2, "{2}"), (1, 3, "{1,3}"), (2, -1, "{2,}"), (0, 2, "{0,2}")])
        return self.node(op="rep", kids=[t[0]], lo=lo, hi=hi), t[1] + s, 2


def reps(nodes, states):
    cuts = {0, 0x80, 0xA0, 0x90, 0xC0, 0xC2, 0xE0, 0xE1, 0xED, 0xEE, 0xF0, 0xF1, 0xF4, 0xF5}
    for s in states:
        for lo, hi, _ in s["edges"]:
            cuts |= {lo, hi + 1}
    for n in nodes:
        for lo, hi in n["set"]:
            if n["kind"] == "cp":
                for c in (lo, hi):
                    for b in chr(c).encode("utf-8"):
                        cuts |= {b, b + 1}
            else:
                cuts |= {lo, hi + 1}
    return sorted(c for c in cuts if 0 <= c <= 255)


CFG = "INIT Init\nNEXT Next\nINVARIANT AgreeReport\nCHECK_DEADLOCK FALSE\n"


def product(wd, cases, tag):
    cases = sorted(cases, key=lambda c: -len(c["dfa"]) * len(c["reps"]))
    parts = [cases[i::C.NCPU] for i in range(C.NCPU)]

    def run(ip):
        i, part = ip
        if not part:
            return [], 0, 0
        f = os.path.join(wd, "uni-%s-%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for c in part:
                fh.write(json.dumps(c) + "\n")
        r = C.tlc("UniEquiv", CFG, wd, env={"CASES": f}, workers=1, timeout=850, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC UniEquiv failed: " + r.out[-3000:])
        bad = sorted({int(m) for m in re.findall(r'<<"MISMATCH", (\d+),', r.out)})
        return [part[b - 1] for b in bad], r.distinct, r.generated
    bad, st, tr = [], 0, 0
    for b, s, t in C.pmap(run, list(enumerate(parts))):
        bad += b
        st += s
        tr += t
    return bad, st, tr


def gen(rng, i):
    flags = "u"
    for c, p in (("i", .08), ("s", .1), ("x", .1), ("p", .1), ("4", .2), ("l", .35), ("n", .1)):
        if rng.random() < p:
            flags += c
    inline = "i" not in flags and rng.random() < .12
    g = UGen(rng, flags, inline)
    n = rng.choice([1, 1, 1, 2, 3])
    ids, txt = [], []
    for _ in range(n):
        t = g.lit() if rng.random() < .25 else g.rex(rng.choice([0, 1, 2, 2, 3]))
        if t[2] == 1:
            t = g.group(t)
        ids.append(t[0])
        txt.append(t[1])
    pat = "|".join(txt)
    if inline:
        pat = "(?i)" + pat
    return {"id": i, "flags": flags, "pat": pat, "nodes": g.nodes, "alts": ids, "valid": g.valid}


def class_cases(rng, base, names):
    out = []
    for n in names:
        s = CLS[n]
        forms = [("\\p{%s}", s), ("[\\p{%s}]", s)]
        if n != "Unicode":
            forms += [("\\P{%s}", ucompl(s)), ("[^\\p{%s}]", ucompl(s)), ("[\\P{%s}]", ucompl(s))]
        f, st = rng.choice(forms)
        out.append({"id": base + len(out), "flags": "u", "pat": f % n, "alts": [1], "valid": False,
                    "nodes": [{"op": "leaf", "set": regen.norm(st), "kids": [], "lo": 0, "hi": 0, "kind": "cp"}]})
    for e, s in ESC.items():
        for f, st in (("\\%s" % e, s), ("\\%s" % e.upper(), ucompl(s)), ("[\\%s]" % e, s), ("[\\%s]" % e.upper(), ucompl(s)),
                      ("[^\\%s]" % e, ucompl(s))):
            out.append({"id": base + len(out), "flags": "u", "pat": f, "alts": [1], "valid": False,
                        "nodes": [{"op": "leaf", "set": regen.norm(st), "kids": [], "lo": 0, "hi": 0, "kind": "cp"}]})
    return out


def range_cases(rng, base, n):
    """single ranges with bounds around every encoding length and inner 80/BF bytes"""
    out = []
    for _ in range(n):
        def one():
            while True:
                c = rng.choice(EDGE) + rng.choice([0, 0, 1, -1, 0x40, -0x40, 0x1000, rng.randrange(-70, 70)])
                if 0 <= c and scalar(c):
                    return c
        a, b = sorted((one(), one()))
        if a <= 0xD7FF < b and a < 0xD7FF:
            b = rng.choice([0xD7FF, b])
        st = [[a, b]] if not a <= 0xD7FF < b else None
        p = "[\\x{%x}-\\x{%x}]" % (a, b)
        neg = rng.random() < .4
        if st is None:
            # leave the surrogates out explicitly
            p = "[\\x{%x}-\\x{d7ff}\\x{e000}-\\x{%x}]" % (a, b)
            st = [[a, 0xD7FF], [0xE000, b]]
        if neg:
            c = ucompl(st)
            if not c:
                continue
            p, st = "[^" + p[1:], c
        out.append({"id": base + len(out), "flags": rng.choice(["u", "u", "up"]), "pat": p, "alts": [1], "valid": False,
                    "nodes": [{"op": "leaf", "set": regen.norm(st), "kids": [], "lo": 0, "hi": 0, "kind": "cp"}]})
        out[-1]["valid"] = "p" in out[-1]["flags"]
    return out


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 49979687 + 2)
    n = 2500 if tier == "quick" else 14000
    exe = C.build("patexport")
    cases = [gen(rng, i) for i in range(n)]
    names = list(CLS)
    rng.shuffle(names)
    small = [x for x in names if len(CLS[x]) < 60]
    cases += class_cases(rng, n, names if tier != "quick" else names[:60] + small[:100])
    cases += range_cases(rng, len(cases) + 100000, 1500 if tier == "quick" else 8000)
    res = fsm.export(exe, wd, [(c["id"], "@%s:" % c["flags"], c["pat"].encode("utf-8")) for c in cases])
    prod, by = [], {}
    for c in cases:
        r = res.get(c["id"])
        by[c["id"]] = c
        if r is None or "crash" in r:
            rep.violation("crash:" + c["pat"], "%r flags %r crashed: %s" % (c["pat"], c["flags"], r))
        elif r["err"] or not r["ops"]:
            rep.violation("reject:%s:%s" % (c["flags"], c["pat"]), "valid regex %r (flags %r) rejected: error %d at %d" % (c["pat"], c["flags"], r["err"], r["pos"]))
        else:
            st = fsm.decode(r["ops"])
            if c["nodes"] is not None:
                prod.append({"id": c["id"], "nodes": c["nodes"], "alts": c["alts"], "valid": c["valid"],
                             "dfa": [{"acc": s["acc"], "edges": s["edges"]} for s in st], "reps": reps(c["nodes"], st)})
    # keep the exploration within the budget: largest products last
    cost = lambda p: len(p["dfa"]) * len(p["reps"]) * len(p["nodes"])
    prod.sort(key=cost)
    budget, tot = (4e6, 0) if tier == "quick" else (6e7, 0)
    keep = []
    for p in prod:
        tot += cost(p)
        if tot > budget or cost(p) > (3e4 if tier == "quick" else 4e5):
            break
        keep.append(p)
    rep.add(skipped_large=len(prod) - len(keep))
    prod = keep
    bad, st, tr = product(wd, prod, "main")
    for b in bad:
        c = by[b["id"]]
        rep.violation("lang:%s:%s" % (c["flags"], c["pat"]), "regex %r (convert flags %r): compiled machine and Unicode meaning differ" % (c["pat"], c["flags"]),
                      {"regex": c["pat"], "flags": c["flags"]})
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(prod),
            samples=[{"regex": c["pat"], "flags": c["flags"]} for c in cases[:12]])
    return rep
