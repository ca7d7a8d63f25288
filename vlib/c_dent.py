"""R14: indentation matching"""
import json, os, random, re, subprocess
from . import common as C

MARGINS = [("[ \\t]", b" \t"), ("\\h", b" \t"), (" ", b" "), ("[ \\t_]", b" \t_"), ("\\t", b"\t"), ("[_ ]", b"_ ")]


def gen(rng):
    m, ms = rng.choice(MARGINS)
    blank = rng.random() < .5
    cont = rng.random() < .3
    comment = rng.choice([0, 0, 0, 1, 2])
    find = rng.random() < .35
    rules = [("nodent", "^%s+" % m), ("indent", rng.choice(["^%s+\\i", "^%s*\\i", "%s+\\i"]) % m), ("dedent", rng.choice(["^%s*\\j", "%s*\\j"]) % m), ("dedent", "\\j")]
    # the extra dedent rule may be left out when the dedent rule is not anchored
    if rules[2][1][0] != "^" and rng.random() < .4:
        rules.pop()
    rng.shuffle(rules)
    # the first of two rules that match the same text wins: nodent must come after indent and dedent only when it ties
    neg = []
    if blank:
        neg.append((None, "(?^^%s*\\n)" % m))
    if cont:
        neg.append((None, "(?^\\\\\\n%s+)" % m))
    com = []
    if comment == 1:
        com = [("comment", "%s*#\\k?" % m)]
    elif comment == 2:
        com = [("undent", "^%s*#\\k" % m), ("comment", "%s*#" % m)]
    char = [("char", "[a-z]")] if find else [("char", ".|\\n")]
    allr = rules + neg + com + char
    kinds = ["eof"]
    for k, r in allr:
        kinds.append(k or "none")
        if r == ".|\\n":
            kinds.append("char")
    pat = "|".join(r for _, r in allr)
    return {"M": list(ms), "blank": blank, "cont": cont, "comment": comment, "eofmargin": False, "kinds": kinds,
            "skip": [c for c in range(256) if not 97 <= c <= 122] if find else []}, pat, find, ms


def layout(rng, R, ms, tab):
    """a text with nested blocks"""
    levels = [b""]
    out = b""
    for _ in range(rng.choice([1, 2, 4, 6, 9, 14])):
        r = rng.random()
        if r < .35:
            levels.append(levels[-1] + bytes(rng.choice(ms) for _ in range(rng.choice([1, 1, 2, 3]))))
        elif r < .65 and len(levels) > 1:
            del levels[-rng.choice([1, 1, 2, 3]):]
            levels = levels or [b""]
        margin = levels[-1]
        if rng.random() < .1:          # the same column spelled differently
            margin = margin.replace(b" " * tab, b"\t") if b"\t" in ms else margin
        q = rng.random()
        if q < .12:
            out += bytes(rng.choice(ms) for _ in range(rng.choice([0, 1, 3]))) + b"\n"
        elif q < .26 and R["comment"]:
            out += bytes(rng.choice(ms) for _ in range(rng.choice([0, 1, 2, 4]))) + b"#" + rng.choice([b"", b"x", b" x"]) + b"\n"
        elif q < .36 and R["cont"]:
            out += margin + b"ab\\\n" + bytes(rng.choice(ms) for _ in range(rng.choice([1, 2, 3]))) + b"c\n"
        else:
            out += margin + rng.choice([b"a", b"ab", b"a" + bytes([ms[0]]) + b"b", b"z"]) + b"\n"
    if rng.random() < .3:
        out = out[:-1]
    return out


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 15485867 + 14)
    n = int(os.environ.get("NN", 30000 if tier == "quick" else 150000))
    ss = []
    for i in range(n):
        R, pat, find, ms = gen(rng)
        tab = rng.choice([1, 2, 4, 8, 8])
        R["tab"] = tab
        op = "F" if find else "S"
        ops = [op + "*", op]
        if rng.random() < .35:
            ops = []
            depth = 0
            for _ in range(rng.randint(2, 14)):
                q = rng.random()
                if q < .55:
                    ops += [op] * rng.choice([1, 2, 5])
                elif q < .68:
                    ops.append("i%d" % rng.choice([0, 1, 2, 3, 4, 6, 8, 12, 16]))
                elif q < .78:
                    ops.append("d%d" % rng.choice([0, 1, 2, 3, 4, 6, 8, 12]))
                elif q < .82:
                    ops.append("c")
                elif q < .89:
                    ops.append("p")
                    depth += 1
                elif q < .95 and depth:
                    ops.append("o")
                    depth -= 1
                else:
                    ops.append("T%d" % rng.choice([1, 2, 4, 8]))
            ops.append(op + "*")
        ss.append({"R": R, "pat": pat, "inp": layout(rng, R, ms, tab), "ops": ops, "ev": None})
    for v, part in (("std", ss[0::2]), ("small", ss[1::2])):
        judge(rep, wd, C.build("dentdrv", v), part, v)
    exe = C.build("dentdrv", "std")
    R = {"M": [32], "blank": False, "cont": False, "comment": 0, "eofmargin": True, "skip": [], "tab": 8,
         "kinds": ["eof", "nodent", "indent", "dedent", "dedent", "char", "char"]}
    judge(rep, wd, exe, [{"R": R, "pat": "^ +|^ +\\i|^ *\\j|\\j|.|\\n", "inp": b"a\n  a\n  ", "ops": ["S*"], "ev": None}], "known")
    rep.add(samples=[{"regex": s["pat"], "input": s["inp"].decode("latin1"), "operations": s["ops"]} for s in ss[:6]])
    return rep


def execute(exe, ss):
    def run(part):
        txt = "".join("%d\t%s\tm\t%d\t%s\t%s\n" % (i, s["pat"].encode().hex(), s["R"]["tab"], s["inp"].hex(), " ".join(s["ops"])) for i, s in enumerate(part))
        try:
            p = subprocess.run([exe], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60 + len(part) * .1)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = e.stdout or b"", -99
        k = 0
        for l in out.split(b"\n"):
            if l.endswith(b"}"):
                r = json.loads(l)
                part[r["id"]]["ev"] = r.get("ev")
                part[r["id"]]["err"] = r.get("err")
                k = r["id"] + 1
        return [(part[k], rc)] if k < len(part) else []
    n = C.NCPU
    return sum(C.pmap(run, [ss[i::n] for i in range(n)]), [])


def validate(wd, ss, tag):
    ss = [s for s in ss if s["ev"]]
    n = min(C.NCPU, max(1, len(ss)))

    def run(ip):
        i, part = ip
        f = os.path.join(wd, "dent-%s-%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for s in part:
                fh.write(json.dumps({"R": s["R"], "I": list(s["inp"]), "ev": s["ev"]}) + "\n")
        r = C.tlc("DentTrace", "INIT Init\nNEXT Next\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n", wd, env={"TRACE": f}, timeout=800, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC DentTrace failed: %s" % r.out[-3000:])
        bad = []
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\[.*?\])\s*>>', r.out, re.S):
            bad.append((part[int(m.group(1)) - 1], int(m.group(2)), re.sub(r"\s+", " ", m.group(3))))
        if r.out.count('"REJECT"') != len(bad):
            raise C.CheckError("DentTrace: cannot parse rejections")
        return bad, r.distinct, r.generated
    bad, st, tr = [], 0, 0
    for b, s, t in C.pmap(run, [(i, ss[i::n]) for i in range(n)]):
        bad += b
        st += s
        tr += t
    return bad, st, tr, sum(len(s["ev"]) for s in ss)


def judge(rep, wd, exe, ss, key):
    for s, rc in execute(exe, ss):
        rep.violation("%s:crash" % key, "driver ended with %s in %s on %r" % (rc, s["pat"], s["inp"]))
    for s in ss:
        if s.get("err"):
            rep.violation("%s:rejected:%s" % (key, s["pat"]), "pattern rejected: error %s" % s["err"])
    bad, st, tr, ne = validate(wd, ss, key)
    rep.add(states=st, transitions=tr, events=ne, traces_validated_against_impl=sum(1 for s in ss if s["ev"]))
    for s, l, exp in bad:
        e = s["ev"][l - 1]
        rep.violation("%s:%s:%s" % (key, s["pat"].replace(" ", "_"), s["inp"].hex()),
                      "regex %s tab %d input %r ops %s: event %d %s; specification: %s" % (s["pat"], s["R"]["tab"], s["inp"], " ".join(s["ops"]), l, json.dumps(e), exp),
                      {"regex": s["pat"], "tab": s["R"]["tab"], "input": s["inp"].decode("latin1"), "operations": s["ops"]})
    return bad
