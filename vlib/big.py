"""Patterns at scale (more than 64K opcodes), judged by Words.tla."""
import json, os, re
from . import common as C, sess

CFG = "INIT Init\nNEXT Next\nINVARIANT OkReport\nCHECK_DEADLOCK FALSE\n"
AB = "abcdefghijklmnop"


def bucket(w):
    d = [(w[i] - 96 if i < len(w) else 0) for i in range(3)]
    return 289 * d[0] + 17 * d[1] + d[2]


def make(rng, op, mode, n):
    lo = rng.choice([1, 1, 2, 3])
    words = []
    for _ in range(n):
        if words and rng.random() < .2:
            w = rng.choice(words)[:rng.randint(lo, 8)] + "".join(rng.choice(AB) for _ in range(rng.randint(0, 3)))
        else:
            w = "".join(rng.choice(AB) for _ in range(rng.randint(lo, 8)))
        words.append((w + "".join(rng.choice(AB) for _ in range(lo)))[:max(lo, len(w))])
    suf = {"": "", "+": "+", ">": r"\>", "$": "$"}[mode]
    grp = mode != "" or rng.random() < .5
    alts = [("(?:%s%s)" % (w, suf) if grp else w) for w in words] + ["[^a-p]"]
    buckets = [[] for _ in range(17 ** 3)]
    for i, w in enumerate(words):
        b = list(w.encode())
        buckets[bucket(b)].append([b, i + 1])
    out = ""
    while len(out) < 4000:
        w = rng.choice(words)
        r = rng.random()
        if r < .2:
            w = w[:-1] + rng.choice(AB)
        elif r < .4:
            w += w[-1] * rng.randint(1, 3)
        elif r < .45:
            w += rng.choice(AB)
        out += w + rng.choice(["-", "\n", "-", "", "\n-"] if mode in "+" else ["-", "\n", "\n", "-\n"])
        if op == "S" and mode == "" and rng.random() < .5:
            out += "-"
    s = sess.Session([], [], "|".join(alts).encode(), out.encode(), [op + "*"] * 8, "m" if mode == "$" else "", src=rng.choice("cg"),
                     sched=[rng.choice([1, 7, 64, 1000])])
    return s, {"mode": mode, "op": op, "count": n, "buckets": buckets, "text": list(out.encode())}


def stage(rep, wd, rng, op, k):
    """k large patterns per mode"""
    for v in ("std", "port"):
        exe = C.build("mdrv", v)
        todo = [make(rng, op, mode, rng.choice([12000, 14000])) for mode in ["", "+", ">", "$"] for _ in range(k)]
        ss = [t[0] for t in todo]
        if op == "S":  # scanning goes on after a failed match: skip one character
            for s in ss:
                s.ops = ["S*", "i"] * 200
        for s, text in sess.execute(exe, ss):
            rep.violation("big:crash", "crash with a pattern of %d bytes: %s" % (len(s.regex), text))
        jobs = []
        for i, (s, rec) in enumerate(todo):
            if s.ev is None:
                rep.violation("big:reject:%d" % len(s.regex), "a pattern of %d words is rejected" % rec["count"])
                continue
            f = os.path.join(wd, "big-%s-%d.ndjson" % (v, i))
            rec["ev"] = [{"o": e["o"][:1], "r": e["r"], "n": e["n"], "f": e["f"]} for e in s.ev]
            with open(f, "w") as fh:
                fh.write(json.dumps(rec) + "\n")
            jobs.append((f, rec, s))

        def tl(job):
            f, rec, s = job
            r = C.tlc("Words", CFG, wd, env={"TRACE": f}, workers=1, timeout=300, mem="3g")
            if not r.ok:
                raise C.CheckError("TLC Words failed: " + r.out[-3000:])
            return [m for m in re.findall(r'<<\s*"WRONG",\s*(\d+),\s*(\d+),\s*(<<[^>]*>>)', r.out)], r.distinct, r.generated
        for (f, rec, s), (bad, st, tr) in zip(jobs, C.pmap(tl, jobs)):
            rep.add(states=st, transitions=tr, large_patterns=1, events=len(rec["ev"]))
            os.remove(f)
            for _, l, x in bad[:1]:
                e = rec["ev"][int(l) - 1]
                rep.violation("big:%s:%s" % (op, rec["mode"]), "a pattern of %d words (%s), event %s is %s, specification <<alternative, size, first>> %s"
                              % (rec["count"], rec["mode"], l, e, x), {"regex": s.regex.decode(), "input": s.inp.decode(), "ops": s.ops})
