"""R06: anchors, word boundaries"""
import random
from . import common as C, regen, sess

KINDS = {"A": ("\\A", "bob"), "z": ("\\z", "eob"), "b": ("\\b", "wb"), "B": ("\\B", "nwb"), "<": ("\\<", "bow"), ">": ("\\>", "eow")}


def gen(rng, multi, half=False):
    ab = rng.choice([b"ab", b"a b", b"a\n", b"a\nb", b"a. ", b"ab\r\n", b"a_-"])
    g = regen.Gen(rng, alphabet=ab, wide=rng.choice([0, 0, .05]), lits=.4)
    start = {"^": ("^", "bol" if multi else "bob"), **{k: KINDS[k] for k in "AbB<>"}}
    end = {"$": ("$", "eol" if multi else "eob"), **{k: KINDS[k] for k in "zbB<>"}}
    ids, txt, asserts = [], [], set()
    nalt = rng.choice([1, 1, 2, 2, 3])
    # with several alternatives: one anchor per alternative, or the same anchors on all of them (see known findings)
    same = nalt > 1 and rng.random() < .3
    sk, ek = ("^A<<<", "$z>>>") if half else ("^^AbB<>", "$$zbB<>")
    ks, ke = rng.choice(sk), rng.choice(ek)

    def chain():
        # several anchors in a row
        return 1 if half or nalt > 1 or rng.random() < .7 else rng.choice([2, 3, 6, 8])
    for _ in range(nalt):
        if half:
            t = part(g, rng, rng.choice([0, 1, 2]))
        else:
            t = g.lit() if rng.random() < .5 else g.rex(rng.choice([0, 1, 1, 2]))
        if t[2] == 1:
            t = g.group(t)
        kids, s = [t[0]], t[1]
        ps = rng.random() < .55
        pe = rng.random() < .55 and not (ps and nalt > 1)
        if same:
            ps = pe = True
        if ps:
            n = chain()
            for _ in range(n):
                k = ks if same else rng.choice(sk if n < 3 or rng.random() < .05 else "^b<")
                s = start[k][0] + s
                asserts.add(start[k][1])
                kids.insert(0, g.node(op="assert", kind=start[k][1]))
        if pe:
            n = chain()
            for _ in range(n):
                k = ke if same else rng.choice(ek if n < 3 or rng.random() < .05 else "$b>")
                s = s + end[k][0]
                asserts.add(end[k][1])
                kids.append(g.node(op="assert", kind=end[k][1]))
        ids.append(g.node(op="cat", kids=kids) if len(kids) > 1 else kids[0])
        txt.append(s)
    return g, ids, "|".join(txt).encode("latin1"), ab, sorted(asserts)


def part(g, rng, depth):
    """a random regex that does not match empty"""
    while True:
        k = len(g.nodes)
        t = g.lit() if rng.random() < .4 else g.rex(depth)
        if not nullable(g.nodes, t[0]):
            return g.group(t) if t[2] == 1 else t
        del g.nodes[k:]


def nullable(nodes, i):
    n = nodes[i - 1]
    if n["op"] == "cat":
        return all(nullable(nodes, k) for k in n["kids"])
    if n["op"] == "alt":
        return any(nullable(nodes, k) for k in n["kids"])
    if n["op"] == "rep":
        return n["lo"] == 0 or nullable(nodes, n["kids"][0])
    return n["op"] in ("eps", "assert")


def gen_look(rng, multi):
    """alternatives X, X(?=Y) and X/Y where no character of X can begin Y"""
    xs, ys = rng.choice([(b"ab", b"c "), (b"ab", b"cd"), (b"a", b"b\n"), (b"abc", b"\n "), (b"0123", b".a")])
    slash = False
    g = regen.Gen(rng, alphabet=xs, wide=0, lits=.4, quote=slash)
    ids, txt, asserts, look = [], [], set(), []
    nalt = rng.choice([1, 1, 2, 2, 3])
    for i in range(nalt):
        g.ab = xs
        g.wide = 0
        if look and all(l == [] for l in look) or rng.random() < .75:
            x = within(g, rng, rng.choice([0, 1, 1, 2]), xs)
            kids, s = [x[0]], x[1]
            if rng.random() < .2:
                a = rng.choice("^Ab<")
                kind = {"^": "bol" if multi else "bob", "A": "bob", "b": "wb", "<": "bow"}[a]
                asserts.add(kind)
                kids.insert(0, g.node(op="assert", kind=kind))
                s = ("^" if a == "^" else "\\" + a) + s
            xid = g.node(op="cat", kids=kids) if len(kids) > 1 else kids[0]
            # Y starts with a character that is not in X
            g.ab = ys
            y0 = g.node(op="leaf", set=[[c, c] for c in sorted(ys)]) if rng.random() < .5 else None
            if y0 is None:
                c = rng.choice(ys)
                y = (g.node(op="leaf", set=[[c, c]]), g.char_text(c))
            else:
                y = (y0, "[" + "".join(g.char_text(c, True) for c in sorted(ys)) + "]")
            yk, yt = [y[0]], y[1]
            if rng.random() < .6:
                g.ab = bytes(xs) + bytes(ys)
                t = g.lit() if rng.random() < .5 else g.rex(rng.choice([0, 1]))
                if t[2] == 1:
                    t = g.group(t)
                yk.append(t[0])
                yt += t[1]
            if rng.random() < .15 and (nalt == 1 or len(kids) == 1):
                # anchors at both ends of one of several alternatives: see the known findings
                k = rng.choice("$z")
                kind = {"$": "eol" if multi else "eob", "z": "eob"}[k]
                asserts.add(kind)
                yk.append(g.node(op="assert", kind=kind))
                yt += "$" if k == "$" else "\\z"
            yid = g.node(op="cat", kids=yk) if len(yk) > 1 else yk[0]
            ids.append(g.node(op="cat", kids=[xid, yid]))
            txt.append(s + "/" + yt if slash else s + "(?=" + yt + ")")
            look.append([xid, yid])
        else:
            g.ab = bytes(xs) + bytes(ys)
            t = part(g, rng, rng.choice([0, 1, 2]))
            ids.append(t[0])
            txt.append(t[1])
            look.append([])
    return g, ids, "|".join(txt).encode("latin1"), bytes(xs) + bytes(ys), sorted(asserts), look, slash


def within(g, rng, depth, xs):
    """a non-empty regex all of whose characters are in xs"""
    while True:
        k = len(g.nodes)
        t = part(g, rng, depth)
        if all(lo == hi and lo in xs or all(c in xs for c in range(lo, hi + 1)) for n in g.nodes[k:] for lo, hi in n["set"]):
            return t
        del g.nodes[k:]


def gen_neg(rng, multi):
    """alternatives some of which are negative patterns (?^X), X(?^Y), (?^X)Y"""
    ab = rng.choice([b"ab", b"abc", b"a\n", b"a b"])
    g = regen.Gen(rng, alphabet=ab, wide=rng.choice([0, 0, .05]), lits=.4)
    ids, txt, asserts, neg = [], [], set(), []
    for i in range(rng.choice([2, 2, 3, 4])):
        isneg = rng.random() < .45 or (i == 1 and not neg)
        kids, s = [], ""
        if isneg:
            parts = [part(g, rng, rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            k = rng.randrange(len(parts))
            s = "".join("(?^" + t[1] + ")" if j == k else t[1] for j, t in enumerate(parts))
            kids = [t[0] for t in parts]
            neg.append(i + 1)
        else:
            t = part(g, rng, rng.choice([0, 1, 1, 2]))
            kids, s = [t[0]], t[1]
        ids.append(g.node(op="cat", kids=kids) if len(kids) > 1 else kids[0])
        txt.append(s)
    return g, ids, "|".join(txt).encode("latin1"), ab, neg


def extra(rng, n):
    """sessions with trailing context and with negative patterns"""
    ss = []
    for i in range(n):
        multi = rng.random() < .7
        slash, look, neg, asserts, A = False, [], [], [], False
        if i % 2:
            g, ids, pat, ab, asserts, look, slash = gen_look(rng, multi)
        else:
            g, ids, pat, ab, neg = gen_neg(rng, multi)
            A = rng.random() < .15
        for j in range(3):
            inp = sess.text(rng, g.nodes, ids, ab, rng.choice([1, 2, 3, 5, 8]), noise=b" \n_" if rng.random() < .5 else ab, pnoise=rng.choice([0, .2]), maxlen=rng.choice([4, 10, 25]))
            o = rng.choice("SSFFFPM")
            ops = [o + "*", o] if o != "M" else ["M"]
            ss.append(sess.Session(g.nodes, ids, pat, inp, ops, ("m" if multi else "") + ("x" if False else ""), asserts=asserts, neg=neg, look=look, A=A, tie=bool(asserts) and len(ids) > 1,
                                   N=False, src=rng.choice("ccgp"), sched=[rng.choice([1, 2, 3, 5, 100]) for _ in range(3)]))
    return ss


def fixed():
    """inputs of the known findings: alternatives that differ in their anchors only in part"""
    out = []
    for alts, opt, inp in [
            ([([], "ab", ["eol"]), (["bob"], "ab", ["eob"])], "m", b"xab"),
            ([([], "ab", ["eol"]), (["bol"], "ab", ["eob"])], "m", b"xab"),
            ([(["bob"], "ab", ["eob"]), (["bow"], "ab", [])], "m", b".ab"),
            ([(["bob"], "b", []), (["eow"], "b", ["eob"])], "", b"b")]:
        sym = {"bob": "\\A", "bol": "^", "eol": "$", "eob": "\\z", "eow": "\\>", "bow": "\\<"}
        g = regen.Gen(random.Random(1))
        ids, txt, asserts = [], [], set()
        for pre, w, post in alts:
            kids = [g.node(op="assert", kind=a) for a in pre] + [g.node(op="leaf", set=[[ord(c), ord(c)]]) for c in w] + [g.node(op="assert", kind=a) for a in post]
            ids.append(g.node(op="cat", kids=kids))
            txt.append("".join(sym[a] for a in pre) + w + "".join(sym[a] for a in post))
            asserts |= set(pre) | set(post)
        out.append(sess.Session(g.nodes, ids, "|".join(txt).encode(), inp, ["F*", "F"], opt, asserts=sorted(asserts), tie=True))
    return out


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 32452843 + 6)
    n = int(__import__("os").environ.get("NN", 40000)) if tier == "quick" else 200000
    ss = extra(rng, n // 4)
    for i in range(n):
        multi = rng.random() < .7
        half = rng.random() < .07
        g, ids, pat, ab, asserts = gen(rng, multi, half)
        for j in range(3):
            inp = sess.text(rng, g.nodes, ids, ab, rng.choice([1, 2, 3, 5, 8]), noise=b" \n" if rng.random() < .5 else b"\n_a\r", pnoise=rng.choice([0, .3]), maxlen=rng.choice([4, 10, 25]))
            o = rng.choice("SFFFPM")
            ops = [o + "*", o] if o != "M" else ["M"]
            ss.append(sess.Session(g.nodes, ids, pat, inp, ops, "m" if multi else "", asserts=asserts, N=rng.random() < .2, W=half,
                                   src=rng.choice("ccgp"), sched=[rng.choice([1, 2, 3, 5, 100]) for _ in range(3)], tie=len(ids) > 1))
    exe = C.build("mdrv", "std")
    sess.judge(rep, wd, exe, ss, "std", "std")
    sess.judge(rep, wd, exe, fixed(), "known", "known")
    rep.add(samples=[s.describe() for s in ss[:8]])
    return rep
