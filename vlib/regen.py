"""Random regexes: an AST (what the specification reads) plus one of its many spellings."""
import random

ALL = [[0, 255]]


def norm(sets):
    s = sorted([lo, hi] for lo, hi in sets if lo <= hi)
    out = []
    for lo, hi in s:
        if out and lo <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return out


def compl(sets, mx=255):
    out, p = [], 0
    for lo, hi in norm(sets):
        if lo > p:
            out.append([p, lo - 1])
        p = hi + 1
    if p <= mx:
        out.append([p, mx])
    return out


def ch(s):
    return [[ord(c), ord(c)] for c in s]


POSIX = {
    "ASCII": [[0, 127]], "Space": [[9, 13], [32, 32]], "XDigit": [[48, 57], [65, 70], [97, 102]],
    "Cntrl": [[0, 31], [127, 127]], "Print": [[32, 126]], "Alnum": [[48, 57], [65, 90], [97, 122]],
    "Alpha": [[65, 90], [97, 122]], "Blank": [[9, 9], [32, 32]], "Digit": [[48, 57]], "Graph": [[33, 126]],
    "Lower": [[97, 122]], "Punct": [[33, 47], [58, 64], [91, 96], [123, 126]], "Upper": [[65, 90]],
    "Word": [[48, 57], [65, 90], [95, 95], [97, 122]],
}
ESCS = {"d": POSIX["Digit"], "w": POSIX["Word"], "s": POSIX["Space"], "h": POSIX["Blank"],
        "l": POSIX["Lower"], "u": POSIX["Upper"], "x": None}
CTRL = {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r"}
SPECIAL = set(b".^$()[]{}?*+|\\/\"")


class Gen:
    """builds nodes; every node method returns (id, text, prec) with prec 3 atom, 2 cat, 1 alt"""

    def __init__(self, rng, alphabet=b"abc", icase=False, dotall=False, freespace=False, quote=False, wide=0.15,
                 maxrep=3, empties=0.05, lits=0.2, anchors=0.0):
        self.r = rng
        self.ab = alphabet
        self.icase, self.dotall, self.freespace, self.quote = icase, dotall, freespace, quote
        self.wide = wide
        self.maxrep = maxrep
        self.empties = empties
        self.lits = lits
        self.anchors = anchors
        self.nodes = []
        self.spaces = ["", "", " ", "\n", "\t "] if freespace else None

    def node(self, **kw):
        d = {"op": kw["op"], "set": kw.get("set", []), "kids": kw.get("kids", []), "lo": kw.get("lo", 0),
             "hi": kw.get("hi", 0), "kind": kw.get("kind", "")}
        self.nodes.append(d)
        return len(self.nodes)

    def fold(self, sets):
        if not self.icase:
            return norm(sets)
        out = [list(x) for x in sets]
        for lo, hi in sets:
            for a, b, d in ((65, 90, 32), (97, 122, -32)):
                l, h = max(lo, a), min(hi, b)
                if l <= h:
                    out.append([l + d, h + d])
        return norm(out)

    def char_text(self, c, inlist=False):
        r = self.r.random()
        s = chr(c)
        if c in CTRL and r < 0.7 and not (c == 8 and not inlist):
            return "\\" + CTRL[c]
        if c < 32 or c >= 127 or c in CTRL:
            return self.r.choice(["\\x%02x", "\\x{%02x}", "\\x%02X"]) % c
        if inlist:
            if s in "\\]^-[" or (s == ":"):
                return "\\x%02x" % c if s in "-:[" or r < .5 else "\\" + s
            if r < 0.05:
                return "\\x%02x" % c
            return s
        if c in SPECIAL:
            return "\\" + s if r < 0.8 else "\\x%02x" % c
        if s in " #" and self.freespace:
            return "\\x%02x" % c
        if r < 0.04:
            return "\\x%02x" % c
        if r < 0.06 and c < 64:
            return "\\0%02o" % c
        return s

    def pick(self):
        if self.r.random() < self.wide:
            return self.r.choice([0, 1, 9, 10, 13, 27, 32, 33, 35, 45, 47, 48, 57, 65, 66, 90, 93, 94, 95, 122, 126, 127, 128, 160,
                                  191, 192, 223, 239, 254, 255]) if self.r.random() < .5 else self.r.randrange(256)
        return self.r.choice(self.ab)

    def leaf(self):
        r = self.r.random()
        if r < 0.62:
            c = self.pick()
            return self.node(op="leaf", set=self.fold([[c, c]])), self.char_text(c), 3
        if r < 0.70:
            if self.dotall:
                return self.node(op="leaf", set=[[0, 255]]), ".", 3
            return self.node(op="leaf", set=[[0, 9], [11, 255]]), ".", 3
        if r < 0.76:
            e = self.r.choice("dwshlu")
            st = ESCS[e]
            if self.r.random() < .3:
                return self.node(op="leaf", set=compl(st)), "\\" + e.upper(), 3
            return self.node(op="leaf", set=norm(st)), "\\" + e, 3
        if r < 0.79:
            n = self.r.choice(list(POSIX))
            if self.r.random() < .3:
                return self.node(op="leaf", set=compl(POSIX[n])), "\\P{%s}" % n, 3
            return self.node(op="leaf", set=norm(POSIX[n])), "\\p{%s}" % n, 3
        # bracket list
        items, sets = [], []
        for _ in range(self.r.choice([1, 1, 2, 2, 3, 4])):
            q = self.r.random()
            if q < .5:
                c = self.pick()
                items.append(self.char_text(c, True))
                sets.append([c, c])
            elif q < .85:
                a, b = self.pick(), self.pick()
                if a > b:
                    a, b = b, a
                items.append(self.char_text(a, True) + "-" + self.char_text(b, True))
                sets.append([a, b])
            elif q < .93:
                n = self.r.choice(["alpha", "digit", "alnum", "upper", "lower", "punct", "space", "xdigit", "blank",
                                   "cntrl", "graph", "print", "word"])
                items.append("[:%s:]" % n)
                sets += [s for s in POSIX[{"xdigit": "XDigit"}.get(n, n.capitalize())]]
                # classes are not folded: keep folding harmless
            else:
                e = self.r.choice("dws")
                items.append("\\" + e)
                sets += ESCS[e]
        # case folding applies to the characters and ranges listed, not to the named classes
        named = [i for i in items if i.startswith("[:") or i in ("\\d", "\\w", "\\s")]
        st = norm(self.fold(sets)) if not named else None
        if st is None:
            st = []
            k = 0
            for it in items:
                if it.startswith("[:"):
                    n = it[2:-2]
                    st += POSIX[{"xdigit": "XDigit"}.get(n, n.capitalize())]
                    k += len(POSIX[{"xdigit": "XDigit"}.get(n, n.capitalize())])
                elif it in ("\\d", "\\w", "\\s"):
                    st += ESCS[it[1]]
                    k += len(ESCS[it[1]])
                else:
                    st += self.fold([sets[k]])
                    k += 1
            st = norm(st)
        body = "".join(items)
        if self.r.random() < .25:
            cs = compl(st)
            if cs:
                return self.node(op="leaf", set=cs), "[^" + body + "]", 3
        return self.node(op="leaf", set=st), "[" + body + "]", 3

    def lit(self):
        """a literal string, possibly quoted"""
        n = self.r.choice([1, 2, 2, 3, 3, 4, 5])
        cs = [self.r.choice(self.ab) for _ in range(n)]
        quoted = self.r.random() < .15
        ids = []
        for c in cs:
            # \Q...\E and "..." are literal: upper/lower folding still applies under (?i)
            ids.append(self.node(op="leaf", set=self.fold([[c, c]])))
        if len(ids) == 1:
            nid = ids[0]
        else:
            nid = self.node(op="cat", kids=ids)
        txt = bytes(cs).decode("latin1")
        if quoted and all(chr(c).isalnum() for c in cs):
            if self.quote and self.r.random() < .5:
                return nid, '"' + txt + '"', 2
            return nid, "\\Q" + txt + "\\E", 2
        return nid, "".join(self.char_text(c) for c in cs), 2

    def group(self, t):
        id, s, p = t
        g = self.r.choice(["(%s)", "(%s)", "(?:%s)"])
        return id, g % s, 3

    def atom(self, t):
        return t if t[2] >= 3 else self.group(t)

    def rex(self, depth):
        r = self.r.random()
        if depth <= 0 or r < 0.14:
            return self.leaf()
        if r < 0.14 + self.lits:
            return self.lit()
        if r < 0.60:
            k = self.r.choice([2, 2, 3, 3, 4])
            parts = [self.rex(depth - 1) for _ in range(k)]
            parts = [p if p[2] >= 2 else self.group(p) for p in parts]
            sp = (lambda: self.r.choice(self.spaces)) if self.spaces else (lambda: "")
            return (self.node(op="cat", kids=[p[0] for p in parts]),
                    "".join(sp() + p[1] for p in parts), 2)
        if r < 0.72:
            k = self.r.choice([2, 2, 3])
            parts = [self.rex(depth - 1) for _ in range(k)]
            return self.node(op="alt", kids=[p[0] for p in parts]), "|".join(p[1] for p in parts), 1
        # repetition
        t = self.rex(depth - 1)
        if t[1][:2] == "\\u":       # \\u{n} would be a code point
            t = (t[0], t[1], 2)
        t = self.atom(t)
        q = self.r.random()
        if q < .25:
            lo, hi, s = 0, -1, self.r.choice(["*", "*", "{0,}"])
        elif q < .5:
            lo, hi, s = 1, -1, self.r.choice(["+", "+", "{1,}"])
        elif q < .72:
            lo, hi, s = 0, 1, self.r.choice(["?", "?", "{0,1}"])
        elif q < .82:
            lo = self.r.randint(1, self.maxrep)
            hi, s = lo, "{%d}" % lo
        elif q < .92:
            lo = self.r.randint(0, self.maxrep)
            hi = self.r.randint(max(lo, 1), self.maxrep + 1)
            s = "{%d,%d}" % (lo, hi)
        else:
            lo = self.r.randint(0, self.maxrep)
            hi, s = -1, "{%d,}" % lo
        return self.node(op="rep", kids=[t[0]], lo=lo, hi=hi), t[1] + s, 2

    def alts(self, n, depth):
        """n top-level alternatives"""
        ids, txt = [], []
        for _ in range(n):
            t = self.lit() if self.r.random() < .35 else self.rex(depth)
            if t[2] == 1:
                t = self.group(t)
            ids.append(t[0])
            txt.append(t[1])
        return ids, txt


def classes_reps(intervals):
    """one representative per byte class induced by the given intervals (endpoint partition)"""
    cuts = {0}
    for lo, hi in intervals:
        cuts.add(lo)
        cuts.add(hi + 1)
    return sorted(c for c in cuts if 0 <= c <= 255)
