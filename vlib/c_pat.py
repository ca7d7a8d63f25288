"""R20: what a pattern reports about its subpatterns (PatInfo.tla)."""
import json, os, random, re
from . import common as C, fsm, regen

CFG = "INIT Init\nNEXT Next\nINVARIANT OkReport\nCHECK_DEADLOCK FALSE\n"


def gen(rng, i):
    icase, dotall, fs, q = (rng.random() < p for p in (.12, .12, .1, .12))
    ab = rng.choice([b"a", b"ab", b"ab", b"abc", b"aAb", b"a0_"])
    g = regen.Gen(rng, alphabet=ab, icase=icase, dotall=dotall, freespace=fs, quote=q,
                  wide=rng.choice([0, 0, .1]), lits=rng.choice([.05, .3, .6]))
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8])
    ids, txt = g.alts(n, rng.choice([0, 1, 1, 2]) if n > 2 else rng.choice([0, 1, 2, 2]))
    ids, txt = list(ids), list(txt)
    # subpatterns that may be subsumed: copies, and copies that are optional or repeated
    for _ in range(rng.choice([0, 1, 1, 2])):
        j = rng.randrange(len(ids))
        at = rng.randrange(len(ids) + 1)
        w = rng.random()
        if w < .4:
            nid, t = ids[j], txt[j]
        else:
            lo, hi, suf = rng.choice([(0, -1, "*"), (1, -1, "+"), (0, 1, "?"), (2, 2, "{2}"), (1, 2, "{1,2}")])
            nid, t = g.node(op="rep", kids=[ids[j]], lo=lo, hi=hi), "(%s)%s" % (txt[j], suf)
        ids.insert(at, nid)
        txt.insert(at, t)
    flags = "".join(c for c, on in (("i", icase), ("s", dotall), ("x", fs), ("q", q)) if on)
    grp = rng.random()
    if grp < .2:
        txt = ["(%s)" % t for t in txt]
    elif grp < .3 and flags:
        txt = ["(?%s:%s)" % (flags, t) for t in txt]
        flags = ""
    return i, flags, txt, g.nodes, ids


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 6007 + 3)
    n = int(os.environ.get("NN") or (16000 if tier == "quick" else 100000))
    exe = C.build("patexport")
    cases = [gen(rng, i) for i in range(n)]
    res = fsm.export(exe, wd, [(i, o, "|".join(t).encode("latin1")) for i, o, t, _, _ in cases])
    todo = []
    for i, o, t, nodes, ids in cases:
        r = res[i]
        p = "|".join(t)
        if "crash" in r or r["err"]:
            rep.violation("reject:%s:%s" % (o, p), "valid regex %r (options %r): %s" % (p, o, r))
            continue
        todo.append({"id": i, "nodes": nodes, "alts": ids, "size": r["size"], "reach": r["reach"], "sub": r["sub"],
                     "text": [p.encode("latin1").hex()] + [x.encode("latin1").hex() for x in t],
                     "reps": regen.classes_reps([x for nd in nodes for x in nd["set"]])})
    todo.sort(key=lambda c: -len(c["nodes"]) * len(c["reps"]))
    parts = [todo[j::C.NCPU] for j in range(C.NCPU)]

    def tl(jp):
        j, part = jp
        if not part:
            return [], 0, 0
        f = os.path.join(wd, "pat-%d.ndjson" % j)
        with open(f, "w") as fh:
            for c in part:
                fh.write(json.dumps(c) + "\n")
        r = C.tlc("PatInfo", CFG, wd, env={"CASES": f}, workers=1, timeout=800, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC PatInfo failed: " + r.out[-3000:])
        bad = {}
        for m in re.findall(r'<<\s*"WRONG",\s*(\d+),\s*"(\w+)",\s*(\{[^}]*\})\s*>>', r.out):
            bad.setdefault(int(m[0]), m[1:])
        return [(part[b - 1], why) for b, why in bad.items()], r.distinct, r.generated
    st = tr = 0
    byid = {c[0]: c for c in cases}
    unreach = sum(1 for c in todo if 0 in c["reach"][:c["size"]])
    for bad, s, t in C.pmap(tl, list(enumerate(parts))):
        st += s
        tr += t
        for c, (why, spec) in bad:
            _, o, txt, _, _ = byid[c["id"]]
            p = "|".join(txt)
            rep.violation("pat:%s:%s" % (o, p), "regex %r options %r: %s: size %d, reachable %s, subpatterns %s; specification: %d subpatterns%s"
                          % (p, o, {"size": "size()", "sub": "subpattern text", "reach": "reachable()"}[why], c["size"], c["reach"],
                             [bytes.fromhex(x).decode("latin1") for x in c["sub"]], len(c["alts"]), ", reachable " + spec if why == "reach" else ""),
                          {"regex": p, "options": o, "what": why})
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(todo), with_unreachable=unreach,
            samples=[{"regex": "|".join(byid[c["id"]][2]), "reach": c["reach"]} for c in todo[-12:]])
    return rep
