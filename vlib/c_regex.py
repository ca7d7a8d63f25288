import random
from . import big, common as C, fsm, regen


def gen_cases(rng, n):
    out = []
    for i in range(n):
        opts = ""
        icase = rng.random() < .15
        dotall = rng.random() < .15
        fs = rng.random() < .12
        q = rng.random() < .12
        ab = rng.choice([b"ab", b"abc", b"abc", b"aAbB", b"ab0_", b"xyz-"])
        g = regen.Gen(rng, alphabet=ab, icase=icase, dotall=dotall, freespace=fs, quote=q,
                      wide=rng.choice([0, 0, .1, .3]), lits=rng.choice([.05, .2, .4]))
        nalt = rng.choice([1, 1, 1, 2, 2, 3, 4, 6])
        depth = rng.choice([1, 2, 2, 3, 3]) if nalt <= 3 else rng.choice([0, 1, 1, 2])
        ids, txt = g.alts(nalt, depth)
        flags = [c for c, on in (("i", icase), ("s", dotall), ("x", fs), ("q", q)) if on]
        style = rng.random()
        pat = "|".join(txt)
        if style < .5:
            opts = "".join(flags)
        elif style < .8 and flags:
            pat = "(?%s)" % "".join(flags) + pat
        elif flags:
            # scoped modifiers on every alternative
            pat = "|".join("(?%s:%s)" % ("".join(flags), t) for t in txt)
        out.append((i, opts, pat, g.nodes, ids))
    return out


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 7919 + 11)
    n = 25000 if tier == "quick" else 120000
    exe = C.build("patexport")
    cases = gen_cases(rng, n)
    res = fsm.export(exe, wd, [(i, o, p.encode("latin1")) for i, o, p, _, _ in cases])
    prod = []
    rejected = 0
    for i, o, p, nodes, ids in cases:
        r = res.get(i)
        if r is None or "crash" in r:
            rep.violation("crash:" + p, "compiling %r (options %r) crashed: %s" % (p, o, r))
            continue
        if r["err"] or not r["ops"]:
            rejected += 1
            rep.violation("reject:%s:%s" % (o, p), "valid regex %r (options %r) rejected: error %d at %d" % (p, o, r["err"], r["pos"]))
            continue
        prod.append(fsm.mkcase(i, nodes, ids, fsm.decode(r["ops"]), p.encode("latin1")))
        if r["size"] != len(ids):
            pass
    bad, st, tr = fsm.product(wd, prod, "main")
    byid = {c[0]: c for c in cases}
    for b in bad:
        i, o, p, _, _ = byid[b["id"]]
        path, _ = fsm.counterexample(wd, b)
        rep.violation("lang:%s:%s" % (o, p), "regex %r options %r: machine and regex semantics differ after input %r" % (p, o, path),
                      {"regex": p, "options": o, "input": path})
    big.stage(rep, wd, rng, "S", 1 if tier == "quick" else 6)
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(prod),
            samples=[{"regex": byid[c["id"]][2], "options": byid[c["id"]][1], "fsm_states": len(c["dfa"])} for c in prod[:12]])
    return rep
