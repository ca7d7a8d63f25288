"""R10: lazily quantified alternatives match the shortest text (Regex.tla LazyTrim, FsmEquiv.tla)."""
import random
from . import common as C, fsm, regen, sess

QUANT = [("*?", 0, -1), ("*?", 0, -1), ("+?", 1, -1), ("+?", 1, -1), ("??", 0, 1), ("{1,2}?", 1, 2), ("{2,}?", 2, -1),
         ("{0,}?", 0, -1), ("{2}?", 2, 2), ("{0,2}?", 0, 2), ("{1,}?", 1, -1), ("{1,3}?", 1, 3), ("{3}?", 3, 3), ("{0,1}?", 0, 1)]


def fixed(g, lo, hi, first=None):
    """a sequence of lo..hi character leafs"""
    parts = [] if first is None else [first]
    parts += [g.leaf() for _ in range(g.r.randint(lo, hi))]
    return [p[0] for p in parts], "".join(p[1] for p in parts)


def repeated(g, k):
    """text of one fixed length: a character, a sequence or alternatives of equal length (one character when there
    are several lazy quantifiers, which the compiled machine only keeps apart then)"""
    r = g.r.random()
    if r < .6 or k > 1:
        t = g.leaf()
        return t if t[1][:2] != "\\u" else g.group(t)
    n = g.r.choice([1, 2, 2, 3])
    alts = [fixed(g, n, n) for _ in range(g.r.choice([1, 1, 2, 3]) if n < 3 else 1)]
    ids = [i[0] if len(i) == 1 else g.node(op="cat", kids=i) for i, _ in alts]
    nid = ids[0] if len(ids) == 1 else g.node(op="alt", kids=ids)
    return g.group((nid, "|".join(t for _, t in alts), 1))


def lazy_alt(g, k, first=None):
    """prefix, repeated{lazy}, suffix ... with k lazy quantifiers"""
    ids, txt = fixed(g, 0, 3, first)
    for i in range(k):
        if txt[-2:] == "\\u":
            txt = txt[:-2] + "(\\u)"
        t = repeated(g, k)
        q, lo, hi = g.r.choice(QUANT)
        ids = ids + [g.node(op="rep", kids=[t[0]], lo=lo, hi=hi)]
        a, b = fixed(g, 0 if i == k - 1 else 1, 3)
        ids += a
        txt += t[1] + q + b
    nid = ids[0] if len(ids) == 1 else g.node(op="cat", kids=ids)
    if g.r.random() < .2:
        txt = g.r.choice(["(%s)", "(?:%s)"]) % txt
    return nid, txt


def gen(rng):
    icase, dotall = rng.random() < .12, rng.random() < .15
    ab = rng.choice([b"ab", b"abc", b"abc", b"aAbB", b"/*-", b"ab\n"])
    g = regen.Gen(rng, alphabet=ab, icase=icase, dotall=dotall,
                  wide=rng.choice([0, 0, .1]), lits=.3)
    r = rng.random()
    if r < .35:
        parts = [lazy_alt(g, 1) + (True,)]
    elif r < .5:
        parts = [lazy_alt(g, 2) + (True,)]
    elif r < .8:
        ids, txt = g.alts(rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 1, 2]))
        parts = [(a, t, False) for a, t in zip(ids, txt)]
        parts.insert(rng.randint(0, len(parts)), lazy_alt(g, 1) + (True,))
    else:
        # several lazy alternatives that begin with different characters
        many = rng.random() < .002       # each lazy quantifier has a number, up to 255
        cs = list(range(0x61, 0x79)) if many else rng.sample(list(range(0x61, 0x66)), rng.choice([2, 2, 3]))
        if many:
            g.ab, g.wide = b"a", 0
        parts = []
        for c in cs:
            l = g.node(op="leaf", set=g.fold([[c, c]])), chr(c), 3
            parts.append(lazy_alt(g, rng.choice([1, 1, 1, 1, 5]) if many else 1, l) + (True,))
        if rng.random() < .4:
            ids, txt = g.alts(1, 1)
            parts.insert(rng.randint(0, len(parts)), (ids[0], txt[0], False))
    flags = "".join(c for c, on in (("i", icase), ("s", dotall)) if on)
    txt = [t for _, t, _ in parts]
    opts = ""
    if not flags or rng.random() < .5:
        opts, pat = flags, "|".join(txt)
    elif rng.random() < .5:
        pat = "(?%s)" % flags + "|".join(txt)
    else:
        pat = "|".join("(?%s:%s)" % (flags, t) for t in txt)
    return g, [p[0] for p in parts], pat.encode("latin1"), opts, ab, [k + 1 for k, p in enumerate(parts) if p[2]]


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 7919 + 71)
    n = 20000 if tier == "quick" else 120000
    exe = C.build("patexport")
    gens = [gen(rng) for i in range(n)]
    cases = [(i, o, p.decode("latin1"), g.nodes, ids, lazy) for i, (g, ids, p, o, ab, lazy) in enumerate(gens)]
    res = fsm.export(exe, wd, [(c[0], c[1], c[2].encode("latin1")) for c in cases])
    prod = []
    for i, o, p, nodes, ids, lazy in cases:
        r = res.get(i)
        if r is None or "crash" in r:
            rep.violation("crash:" + p, "compiling %r (options %r) crashed: %s" % (p, o, r))
        elif r["err"] or not r["ops"]:
            rep.violation("reject:%s:%s" % (o, p), "valid regex %r (options %r) rejected: error %d at %d" % (p, o, r["err"], r["pos"]))
        else:
            prod.append(fsm.mkcase(i, nodes, ids, fsm.decode(r["ops"]), p.encode("latin1"), lazy))
    bad, st, tr = fsm.product(wd, prod, "main")
    byid = {c[0]: c for c in cases}
    for b in bad:
        i, o, p = byid[b["id"]][:3]
        path, _ = fsm.counterexample(wd, b)
        rep.violation("lang:%s:%s" % (o, p), "regex %r options %r: machine and shortest-match semantics differ after input %r" % (p, o, path),
                      {"regex": p, "options": o, "input": path})
    ss = []
    for g, ids, p, o, ab, lazy in gens[:6000 if tier == "quick" else 40000]:
        for op in "SFP":
            inp = sess.text(rng, g.nodes, ids, ab, rng.choice([0, 1, 2, 3, 4, 6]), pnoise={"S": .05, "F": .4, "P": .4}[op], maxlen=rng.choice([8, 20, 40]))
            ss.append(sess.Session(g.nodes, ids, p, inp, [op + "*", op], o, N=op == "F" and rng.random() < .3,
                                   src=rng.choice("ccg"), sched=[rng.choice([1, 2, 3, 5, 100]) for _ in range(3)], lazy=lazy))
    for v, part in (("std", ss[0::2]), ("port", ss[1::2])):
        sess.judge(rep, wd, C.build("mdrv", v), part, v, v)
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(prod),
            samples=[{"regex": byid[c["id"]][2], "options": byid[c["id"]][1], "fsm_states": len(c["dfa"])} for c in prod[:12]])
    return rep
