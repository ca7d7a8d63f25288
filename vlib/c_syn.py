"""R19: which regexes are rejected, with what error (RegexSyntax.tla, SyntaxTrace.tla)."""
import itertools, json, os, random, re, subprocess
from . import common as C

CFG = "INIT Init\nNEXT Next\nINVARIANT OkReport\nCHECK_DEADLOCK FALSE\n"
CODES = ["paren", "brace", "bracket", "quote", "empty", "eclass", "class", "range", "escape", "anchor", "repeat", "quant",
         "mod", "other", "other", "syntax", "other", "other", "other"]
# exhaustive up to a length (quick, thorough) over small alphabets of tokens
ALPH = [
    (["a", "(", ")", "|", "*", "?", "+", "^", "$", "(?:"], 4, 5),
    (["a", "(", ")", "{", "}", "0", "1", "2", ","], 5, 6),
    (["a", "{1", "{2,", "{12,3", "{0,1}", "}", "*", "+", "?", ")", "("], 4, 5),
    (["[", "]", "^", "-", "a", "c", "\\]", "[:alpha:]", "\\d"], 5, 6),
    (["[", "]", "[^", "a-c", "b", "c-a", "&&[", "--[", "||[", "\\n-", "[:foo:]", "[:^digit:]", "\\p{Alpha}"], 4, 5),
    (["\\Q", "\\E", "\\", "a", "(", ")", "[", "]", ".", "\\("], 4, 5),
    (["(?i:", "(?i)", "(?z)", "(?#", "(?:", "(?", ":", ")", "a", "|", "(?s-i:", "(?x"], 4, 4),
    (["\\b", "\\<", "\\A", "\\d", "\\p{Foo}", "\\p{Alpha}", "a", "(", ")", "|", "*", "{1}"], 4, 5),
]
TOK = sorted({t for a, _, _ in ALPH for t in a} | {"b", " ", "\"", "/", "#", "[a-c]", "[^a]", "\\n", "\\.", "{2}", "{1,2}", "{2,}"})


def wellformed(rng, d):
    r = rng.random()
    if d == 0 or r < .3:
        return [rng.choice(["a", "b", "[a-c]", "[^a]", "\\d", "\\(", "\\n", "[]a]", "[a-c&&[b]]", "\\Qa|(\\E", ".", "[[:alpha:]_]", "[\\]^-]"])]
    if r < .5:
        return wellformed(rng, d - 1) + wellformed(rng, d - 1)
    if r < .65:
        return ["(" if rng.random() < .5 else rng.choice(["(?:", "(?i:", "(?s-i:"])] + wellformed(rng, d - 1) + [")"]
    if r < .8:
        return wellformed(rng, d - 1) + ["|"] + wellformed(rng, d - 1)
    x = wellformed(rng, d - 1)
    if len(x) > 1:
        x = ["("] + x + [")"]
    return x + [rng.choice(["*", "+", "?", "{2}", "{1,2}", "{0,}", "*?", "{1}?"])]


def gen(rng, tier):
    out = set()
    for toks, q, t in ALPH:
        for n in range(1, (q if tier == "quick" else t) + 1):
            for x in itertools.product(toks, repeat=n):
                out.add("".join(x))
    for _ in range(20000 if tier == "quick" else 150000):
        x = wellformed(rng, rng.choice([2, 3, 4, 5]))
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            w = rng.random()
            i = rng.randrange(len(x) + 1)
            if w < .45:
                x.insert(i, rng.choice(TOK))
            elif w < .75 and len(x) > 1:
                x.pop(min(i, len(x) - 1))
            elif len(x) > 1:
                # cut inside a token
                t = x[min(i, len(x) - 1)]
                x[min(i, len(x) - 1)] = t[:rng.randrange(len(t) + 1)] if rng.random() < .7 else t[1:]
        s = "".join(x)
        if len(s) <= 60:
            out.add(s)
    return sorted(out)


def direct(s):
    """constructs that convert translates and the compiler does not know are judged with convert only"""
    return 0 if re.search(r"\\Q|\(\?#|\[:|\{\}|\{,|&&\[|--\[|\|\|\[", s) else 1


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 4447 + 9)
    items = gen(rng, tier)
    exe = C.build("syndrv", "asan")
    rng.shuffle(items)
    parts = [items[i::C.NCPU * 2] for i in range(C.NCPU * 2)]

    def ask(jp):
        j, part = jp
        rows, bad, i = [], [], 0
        while i < len(part) and len(bad) < 8:
            p = subprocess.run([exe], input="".join(s.encode("latin1").hex() + "\n" for s in part[i:]), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=800)
            got = p.stdout.splitlines()
            for s, l in zip(part[i:], got):
                v, a, m, d, dp = map(int, l.split())
                rows.append({"s": list(s.encode("latin1")), "v": "ok" if v < 0 else CODES[v], "p": a, "m": m,
                             "d": "ok" if d < 0 else CODES[d] if d < 90 else "raised", "dp": dp, "dd": direct(s)})
            i += len(got)
            if i < len(part):
                bad.append((part[i], p.stderr[-400:]))
                i += 1
        return j, rows, bad

    def tl(jr):
        j, rows = jr
        f = os.path.join(wd, "syn-%d.ndjson" % j)
        with open(f, "w") as fh:
            for r in rows:
                fh.write(json.dumps(r) + "\n")
        r = C.tlc("SyntaxTrace", CFG, wd, env={"CASES": f}, workers=1, timeout=800, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC SyntaxTrace failed: " + r.out[-3000:])
        bad = {}
        for m in re.findall(r'<<\s*"WRONG",\s*(\d+),\s*"(\w+)",\s*(\{[^}]*\})\s*>>', r.out):
            bad[int(m[0])] = m[1:]
        return [(rows[b - 1], w) for b, w in bad.items()], r.distinct, r.generated
    res = C.pmap(ask, list(enumerate(parts)))
    st = tr = n = 0
    count = {}
    for j, rows, bad in res:
        n += len(rows)
        for s, err in bad:
            rep.violation("crash:" + s, "regex %r crashes: %s" % (s, err), {"regex": s})
        for r in rows:
            count[r["v"]] = count.get(r["v"], 0) + 1
    for bad, s, t in C.pmap(tl, [(j, rows) for j, rows, _ in res]):
        st += s
        tr += t
        for r, (why, spec) in bad:
            s = bytes(r["s"]).decode("latin1")
            rep.violation("syn:" + s, "regex %r: %s: convert and compile: %s at %d, compile alone: %s at %d; specification: %s"
                          % (s, why, r["v"], r["p"], r["d"], r["dp"], spec), {"regex": s, "what": why})
    rep.add(states=st, transitions=tr, traces_validated_against_impl=n, answers=count,
            samples=[{"regex": s} for s in items[:12]])
    return rep
