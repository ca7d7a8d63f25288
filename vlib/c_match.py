"""R03 scan, R04 find, R05 split: recorded match sequences are behaviours of Matcher.tla"""
import random
from . import big, common as C, regen, sess


def gen_pattern(rng, kind=None):
    icase = rng.random() < .12
    dotall = rng.random() < .12
    ab = rng.choice([b"ab", b"abc", b"abc", b"abcd", b"aAbB", b"ab\n", b"a b"])
    g = regen.Gen(rng, alphabet=ab, icase=icase, dotall=dotall, wide=rng.choice([0, 0, .05, .2]), lits=rng.choice([.05, .2, .4, .7]))
    nalt = rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 9])
    depth = rng.choice([0, 1, 1, 2, 2, 3]) if nalt <= 3 else rng.choice([0, 1])
    ids, txt = g.alts(nalt, depth)
    return g, ids, "|".join(txt).encode("latin1"), ("i" if icase else "") + ("s" if dotall else ""), ab


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 104729 + {"R03": 3, "R04": 4, "R05": 5}[prop])
    op = {"R03": "S", "R04": "F", "R05": "P"}[prop]
    n = 25000 if tier == "quick" else 120000
    ss = []
    for i in range(n):
        g, ids, pat, popts, ab = gen_pattern(rng)
        for j in range(3):
            inp = sess.text(rng, g.nodes, ids, ab, rng.choice([0, 1, 2, 3, 4, 6, 10]),
                            pnoise={"S": .05, "F": .4, "P": .4}[op], maxlen=rng.choice([8, 20, 40]))
            if op == "S":
                ops = ["S*", "S"]
            else:
                ops = [op + "*", op]
            if op == "S" and j == 0:
                ops = ["M"] + (["M"] if rng.random() < .3 else [])
            ss.append(sess.Session(g.nodes, ids, pat, inp, ops, popts, N=op == "F" and rng.random() < .3,
                                   src=rng.choice("ccg"), sched=[rng.choice([1, 2, 3, 5, 100]) for _ in range(3)]))
    for v, part in (("std", ss[0::3] + ss[1::3]), ("port", ss[2::3])):
        exe = C.build("mdrv", v)
        sess.judge(rep, wd, exe, part, v, v)
    if op == "F":
        big.stage(rep, wd, rng, "F", 1 if tier == "quick" else 6)
    rep.add(samples=[s.describe() for s in ss[:8]])
    return rep
