"""R18: ranges, bit sets and operations on ordered sets form a set algebra (Sets.tla, SetsModel.tla, SetsTrace.tla)."""
import itertools, json, os, random, re, subprocess
from . import common as C

Q = {"int": ["any", "intersects", "contains", "lt", "gt", "le", "ge", "eq", "ne", "lo", "hi"],
     "bits": ["any", "all", "count", "intersects", "contains", "lt", "gt", "le", "ge", "eq", "ne", "first"],
     "set": ["disjoint", "subset"]}
E = {"int": ["or", "and", "assign"], "oint": ["or", "and", "sub", "assign"], "bits": ["or", "and", "sub", "xor", "assign", "flipall"], "set": ["or", "and"]}
M = {"int": ["or", "and", "assign", "swap", "clear"], "oint": ["or", "and", "sub", "assign", "swap", "clear"],
     "bits": ["or", "and", "sub", "xor", "assign", "swap", "clear", "flipall", "lshift", "rshift"], "set": ["or", "sub", "assign", "swap", "clear"]}
TYPES = ["int", "double", "oint", "ouchar", "oschar", "bits", "set", "gset"]


def kind(t):
    return "oint" if t.startswith("o") else "int" if t == "double" else "set" if t == "gset" else t


def qs(t):
    k = kind(t)
    return Q["int"] if k == "oint" else Q[k]


def op(o, x=0, y=1, a=0, b=0, q=0):
    return "%s%s:%d:%d:%d:%d" % (o, "!" if q else "", x, y, a, b)


def runs_int(n):
    """all sets of disjoint closed intervals with bounds in 0..n-1 (open=0) as lists of (lo, hi)"""
    def rec(i):
        yield []
        for lo in range(i, n):
            for hi in range(lo, n):
                for r in rec(hi + 1):
                    yield [(lo, hi)] + r
    return list(rec(0))


def subsets(vals):
    for m in range(1 << len(vals)):
        yield [(v, v) for i, v in enumerate(vals) if m >> i & 1]


def exhaustive(t, tier):
    """every pair of small sets, every operation on it"""
    k = kind(t)
    big = tier != "quick"
    if k == "int":
        sets, sc = runs_int(5 if big else 4), 2
    elif k == "oint":
        sets, sc = list(subsets(range(7 if big else 5))), 1
    elif k == "bits":
        sets, sc = list(subsets([0, 62, 63, 64, 127, 128] if big else [0, 63, 64, 129])), 1
    else:
        sets, sc = list(subsets(range(6 if big else 5))), 1
    hi = max((b for s in sets for _, b in s), default=0)
    for s, u in itertools.product(sets, repeat=2):
        mk = [op("clear", 0, 0), op("clear", 1, 1)] + [op("insert", 0, 1, a * sc, b * sc) for a, b in s] + [op("insert", 1, 0, a * sc, b * sc) for a, b in u]
        ops = list(mk)
        for o in qs(t):
            ops.append(op(o))
        for o in E[k]:
            ops += [op(o, a=0, q=1), op(o, a=1, q=1)]
        for o in M[k]:
            if o not in ("clear", "swap"):
                ops += mk + [op(o, a=1)]
        if len(u) <= 1 and len(s):
            for a in range(hi + 1):
                for b in range(a, hi + 1) if k != "bits" else [a, a + 1, a + 64]:
                    if k in ("int", "oint"):
                        ops.append(op("find", 0, 1, a * sc, b * sc))
                    if k in ("oint", "bits", "set"):
                        ops += mk + [op("erase", 0, 1, a, b)]
                    if k == "bits":
                        ops += mk + [op("flip", 0, 1, a, b)]
        yield ops


def history(rng, t):
    k = kind(t)
    sc = 2 if k == "int" else 1
    top = {"int": rng.choice([6, 20, 60]), "oint": rng.choice([6, 20, 60, 254]), "bits": rng.choice([10, 70, 140, 300]), "set": rng.choice([6, 15, 40])}[k]
    ops = []

    def rg(w=None):
        a = rng.randint(0, top)
        if k == "bits" and rng.random() < .4:
            a = min(top, max(0, 64 * rng.randint(0, top // 64) + rng.choice([-1, 0, 1])))
        b = min(top, a + rng.choice([0, 0, 0, 1, 2, 5, 30, 64]))
        return a * sc, b * sc
    for _ in range(rng.choice([5, 12, 25, 40])):
        x, y = rng.choice([(0, 1), (1, 0)])
        if rng.random() < .06:
            y = x
        w = rng.random()
        a, b = rg()
        if w < .34:
            ops.append(op("insert", x, y, a, b))
        elif w < .42 and k != "int":
            # bits may be erased beyond the end of the vector
            if k == "bits" and rng.random() < .2:
                b += rng.choice([1, 64, 200])
            ops.append(op("erase", x, y, a, b))
        elif w < .47 and k == "bits":
            ops.append(op("flip", x, y, a, b))
        elif w < .53 and k == "bits":
            ops.append(op(rng.choice(["set", "bitor", "bitand", "bitxor"]), x, y, a, rng.choice([0, 1])))
        elif w < .66:
            ops.append(op(rng.choice([o for o in M[k] if o != "clear" or rng.random() < .1]), x, y, rng.choice([0, 1])))
        elif w < .76:
            o = rng.choice(E[k] + (["insert"] if k != "set" else []))
            ops.append(op(o, x, y, *((a, b) if o == "insert" else (rng.choice([0, 1]), 0)), q=1))
        elif w < .86:
            ops.append(op("find", x, y, a, b) if k in ("int", "oint") and rng.random() < .6 else
                       op("next", x, y, a) if k == "bits" and rng.random() < .5 else op("has", x, y, a + (1 if t == "double" and rng.random() < .3 else 0)))
        else:
            ops.append(op(rng.choice(qs(t)), x, y))
    return ops


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 6700417 + 18)
    m = C.tlc("SetsModel", "CONSTANT N = %d\nINIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n" % (5 if tier == "quick" else 6), wd, workers=C.NCPU, timeout=800, mem="4g")
    if not m.ok:
        raise C.CheckError("TLC SetsModel failed: " + m.out[-3000:])
    rep.add(model_states=m.distinct, model_transitions=m.generated)
    ss = []
    for t in TYPES:
        for ops in exhaustive(t, tier):
            ss.append({"t": t, "ops": ops})
    ex = len(ss)
    for i in range(int(os.environ.get("NN", 16000 if tier == "quick" else 120000))):
        t = TYPES[i % len(TYPES)]
        ss.append({"t": t, "ops": history(rng, t)})
    rng.shuffle(ss)
    exe = C.build("setdrv", "asan")
    n = C.NCPU * (1 if tier == "quick" else 4)

    def go(ip):
        i, part = ip
        f = os.path.join(wd, "sets-%d.ndjson" % i)
        rows, bad, j = [], [], 0
        while j < len(part) and len(bad) < 6:
            p = subprocess.run([exe], input="".join("%s %s\n" % (s["t"], " ".join(s["ops"])) for s in part[j:]), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=600, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            got = [l for l in p.stdout.split("\n") if l.endswith("}")]
            rows += list(zip(part[j:], got))
            j += len(got)
            if j < len(part):
                bad.append((part[j], p.stderr[:700]))
                j += 1
        with open(f, "w") as fh:
            for _, l in rows:
                fh.write(l + "\n")
        r = C.tlc("SetsTrace", "INIT Init\nNEXT Next\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n", wd, env={"TRACE": f}, timeout=850, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC SetsTrace failed: " + r.out[-3000:])
        rej = []
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\[.*?\])\s*>>', r.out, re.S):
            s, l = rows[int(m.group(1)) - 1]
            rej.append((s, json.loads(l)["ev"], int(m.group(2)), re.sub(r"\s+", " ", m.group(3))))
        if len(rej) != r.out.count('"REJECT"'):
            raise C.CheckError("SetsTrace: cannot parse rejections")
        return bad, rej, r.distinct, r.generated, len(rows), sum(len(s["ops"]) for s, _ in rows)
    for bad, rej, st, tr, nr, ne in C.pmap(go, [(i, ss[i::n]) for i in range(n)]):
        rep.add(states=st, transitions=tr, traces_validated_against_impl=nr, events=ne)
        for s, err in bad:
            rep.violation("crash:%s:%s" % (s["t"], ",".join(s["ops"])[:300]), "driver stopped on %s %s: %s" % (s["t"], " ".join(s["ops"]), err), s)
        for s, ev, l, exp in rej:
            e = ev[l - 1]
            rep.violation("%s:%s" % (s["t"], ",".join(s["ops"][:l])[:300]), "%s: %s: event %d %s; specification: %s"
                          % (s["t"], " ".join(s["ops"][:l]), l, json.dumps(e), exp), {"type": s["t"], "operations": s["ops"][:l]})
    rep.add(exhaustive_pairs=ex, samples=[{"type": s["t"], "operations": s["ops"][:8]} for s in ss[:8]])
    return rep
