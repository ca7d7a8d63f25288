"""R21: fuzzy matching (Fuzzy.tla)."""
import json, os, random, re, subprocess
from . import common as C, regen, sess, c_eng

CFG = "INIT Init\nNEXT Next\nINVARIANT OkReport\nCHECK_DEADLOCK FALSE\n"
INS, DEL, SUB = 0x1000, 0x2000, 0x4000


def edit(rng, t, n, ab):
    t = bytearray(t)
    for _ in range(n):
        k, z = rng.randrange(len(t) + 1), rng.random()
        if z < .33:
            t.insert(k, rng.choice(ab))
        elif z < .66 and k < len(t):
            del t[k]
        elif k < len(t):
            t[k] = rng.choice(ab)
    return bytes(t)


def gen(rng, small):
    if rng.random() < .3:
        # a string: every text within the edits must be found to match
        g = c_eng.Simple(rng, alphabet=rng.choice([b"ab", b"abcd", b"abcdxyz"]))
        g.nocap = True
        w = [rng.choice(g.ab) for _ in range(rng.choice([1, 2, 3, 4, 5, 8]))]
        ids = [g.node(op="leaf", set=[[c, c]]) for c in w]
        ids = [ids[0] if len(ids) == 1 else g.node(op="cat", kids=ids)]
        pat, full = "".join(chr(c) for c in w), True
    else:
        g, ids, pat, _ = c_eng.gen(rng, True, True)
        full = False
    mx = rng.choice([1, 1, 2, 3])
    fl = rng.choice([0, 0, 0, 0, INS, DEL, SUB, INS | DEL, INS | SUB, DEL | SUB, INS | DEL | SUB])
    op = rng.choice("MMFFPS")
    ab = bytes(g.ab) + b"zq"
    parts = []
    for _ in range(1 if op == "M" else rng.choice([1, 2, 3, 6] + ([12] if small else []))):
        w = sess.sample(rng, g.nodes, rng.choice(ids))[:15]
        w = bytes(c if c < 128 and c != 0 else 33 + c % 90 for c in w)
        parts.append(edit(rng, w, rng.choice([0, 0, 1, 1, 2, 3]), ab))
        if op != "M" and rng.random() < .6:
            parts.append(bytes(rng.choice(ab + b"\n ") for _ in range(rng.choice([1, 1, 2, 4]))))
    t = b"".join(parts)[:120]
    if rng.random() < .3 and all(h < 128 for x in g.nodes for _, h in x.get("set") or []):
        # characters outside ASCII are edited as a whole
        u = t.decode("latin1")
        for _ in range(rng.choice([1, 1, 2, 3])):
            k, z = rng.randrange(len(u) + 1), rng.random()
            u = u[:k] + rng.choice("\xe9\u20ac\U0001f600\xff\u0800\uffff\U0010ffff") + u[k + (z < .6):]
        t = u.encode("utf-8")
    # matching the empty text, and texts that share nothing with the string, is not promised
    full = full and fl == 0 and t != b""
    return g, ids, pat, mx, fl, t, op, full, rng.choice(["", "", "", "C", "L", "A", "B", "R"])


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 4099 + 21)
    n = int(os.environ.get("NN") or (24000 if tier == "quick" else 200000))
    inc = ["-I" + os.path.join(C.REPO, "fuzzy")]
    for v in ("std", "asan" if tier != "quick" else "small"):
        exe = C.build("fuzzdrv", v, extra=inc)
        cases = [gen(rng, v != "std") for _ in range(n // 2)]
        lines = ["%d\t%s\t%d\t%s\t%s\t%s\t%s\n" % (i, p.encode().hex(), mx | fl, t.hex(), op, rng.choice(["", "", "1,2", "3", "16", "31,1"]), how)
                 for i, (g, ids, p, mx, fl, t, op, full, how) in enumerate(cases)]

        def drive(part):
            out, todo = [], part
            while todo:
                p = subprocess.run([exe], input="".join(todo).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
                got = []
                for x in p.stdout.decode("latin1").splitlines():
                    if x.endswith("}"):
                        got.append(json.loads(x))
                out += got
                if len(got) >= len(todo):
                    break
                out.append({"id": int(todo[len(got)].split("\t")[0]), "crash": p.stderr.decode("latin1")[-800:] or "exit %d" % p.returncode})
                todo = todo[len(got) + 1:]
            return out
        todo = []
        for r in (x for p in C.pmap(drive, [lines[i::C.NCPU] for i in range(C.NCPU)]) for x in p):
            g, ids, pat, mx, fl, t, op, full, how = cases[r["id"]]
            d = {"regex": pat, "max": mx, "flags": hex(fl), "input": t.decode("latin1"), "operation": op, "made": how, "variant": v}
            if "ev" not in r:
                rep.violation("fuzzy:crash:%s" % pat, "crash or error on %s: %s" % (d, r), d)
                continue
            I = list(t)
            if any(c > 127 for c in t):
                # count in characters
                at, I = {}, [ord(c) for c in t.decode("utf-8")]
                k = 0
                for j, c in enumerate(I):
                    at[k] = j
                    k += len(chr(c).encode("utf-8"))
                at[k] = len(I)
                cut = [e for e in r["ev"] if e["r"] != 0 and (e["f"] not in at or e["f"] + len(e["x"]) not in at)]
                if cut:
                    rep.violation("fuzzy:cut:%s:%s:%s" % (pat, op, t.hex()), "a match begins or ends inside a character: %s of %s" % (cut[0], d), d)
                    continue
                for e in r["ev"]:
                    e["f"] = at.get(e["f"], len(I))
                    e["x"] = [ord(c) for c in bytes(e["x"]).decode("utf-8", "replace")]
            for e in r["ev"]:
                e["n"] = len(e["x"])
            todo.append({"nodes": g.nodes, "alts": ids, "I": I, "max": mx, "ins": fl == 0 or bool(fl & INS), "del": fl == 0 or bool(fl & DEL),
                         "sub": fl == 0 or bool(fl & SUB), "full": full, "ev": r["ev"], "d": d})
        todo.sort(key=lambda c: -len(c["I"]) * len(c["nodes"]))
        parts = [todo[j::C.NCPU] for j in range(C.NCPU)]

        def tl(jp):
            j, part = jp
            if not part:
                return [], 0, 0
            f = os.path.join(wd, "fuzzy-%d.ndjson" % j)
            with open(f, "w") as fh:
                for c in part:
                    fh.write(json.dumps({a: b for a, b in c.items() if a != "d"}) + "\n")
            r = C.tlc("Fuzzy", CFG, wd, env={"CASES": f}, workers=1, timeout=800, mem="3g")
            if not r.ok:
                raise C.CheckError("TLC Fuzzy failed: " + r.out[-3000:])
            bad = {}
            for m in re.findall(r'<<\s*"WRONG",\s*(\d+),\s*(\d+),\s*"([^"]+)"\s*>>', r.out):
                bad.setdefault(int(m[0]), m[1:])
            return [(part[b - 1], why) for b, why in bad.items()], r.distinct, r.generated
        for bad, s, t in C.pmap(tl, list(enumerate(parts))):
            rep.add(states=s, transitions=t)
            for c, (l, why) in bad:
                e = dict(c["ev"][int(l) - 1])
                e["x"] = "".join(chr(x) for x in e["x"])
                rep.violation("fuzzy:%s:%s:%s" % (c["d"]["regex"], c["d"]["operation"], c["d"]["input"]),
                              "%s: event %s (%s) of %s" % (why, l, e, c["d"]), c["d"])
        rep.add(traces_validated_against_impl=len(todo), events=sum(len(c["ev"]) for c in todo))
        rep.add(samples=[c["d"] for c in todo[:4]])
    return rep
