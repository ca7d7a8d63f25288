"""R12 decoding of input sources, R13 DOS line ends: recorded reads are behaviours of Input.tla"""
import json, os, random, re, subprocess
from . import common as C

PAGES = json.load(open(os.path.join(C.VERIF, "data", "codepages.json")))
BOMS = {1: b"\xef\xbb\xbf", 2: b"\xfe\xff", 3: b"\xff\xfe", 4: b"\0\0\xfe\xff", 5: b"\xff\xfe\0\0"}


def codepoint(rng):
    r = rng.random()
    if r < .35:
        return rng.choice([10, 13, 65, 97, 0x7f, 1, 0])
    if r < .5:
        return rng.choice([0x80, 0xff, 0x7ff, 0x100, 0xc3, rng.randint(0x80, 0x7ff)])
    if r < .75:
        return rng.choice([0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x20ac, 0x6100, 0x61, rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0xffff)])
    return rng.choice([0x10000, 0x10ffff, 0x1f600, 0x10061, rng.randint(0x10000, 0x10ffff)])


def u16(rng, cps):
    us = []
    for c in cps:
        if c >= 0x10000:
            c -= 0x10000
            us += [0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)]
        else:
            us.append(c)
    return us


def raw(rng, enc, n):
    """content bytes in encoding enc"""
    if enc in (2, 3, 4, 5):
        cps = [codepoint(rng) for _ in range(n)]
        if enc in (2, 3):
            us = u16(rng, cps)
            if rng.random() < .1:
                us.insert(0 if not us or not 0xdc00 <= us[0] < 0xe000 else 0, rng.randint(0xdc00, 0xdfff))
            if rng.random() < .05:
                us.append(rng.randint(0xd800, 0xdbff))
            b = b"".join(u.to_bytes(2, "big" if enc == 2 else "little") for u in us)
        else:
            if rng.random() < .1:
                cps.append(rng.choice([0x110000, 0x7fffffff, 0x200000]))
            b = b"".join(c.to_bytes(4, "big" if enc == 4 else "little") for c in cps)
        if rng.random() < .1:
            b += b"a"
        return b
    if enc >= 7:
        ok = [b for b in range(256) if PAGES[enc - 7][b] >= 0]
        return bytes(rng.choice(ok) if rng.random() < .8 else rng.choice([b for b in (0, 10, 13, 0x61, 0xef, 0xbb, 0xbf, 0xfe, 0xff) if b in ok]) for _ in range(n))
    if enc == 0 and rng.random() < .3:
        return bytes(rng.choice(b"\0\xef\xbb\xbf\xfe\xffa\r\n") for _ in range(n))
    if enc == 6:
        return bytes(rng.choice([rng.randrange(256), rng.choice(b"\0\xef\xbb\xbf\xfe\xffa\r\n\xe9")]) for _ in range(n))
    return bytes(rng.choice(b"a\r\n\r\nb\x80\xc3\xa9\0") for _ in range(n))


def ops(rng, total, wrap, kind):
    o = []
    if wrap in "IB" and rng.random() < .5:
        o.append("s")
    if rng.random() < .3 and wrap in "IB":
        o.append("e")
    got = 0
    ns = rng.choice([[1], [2], [1, 2, 3], [3], [4, 5, 1], [1, 2, 3, 4, 5, 7, 16, 0], [100], [7, 1]])
    big = total > 1000
    while got <= total + 4 and len(o) < 400:
        r = rng.random()
        if r < .1 and not big:
            o.append("c")
            got += 1
        elif r < .2 and wrap in "BSTDE":
            o.append("p")
        elif r < .24 and wrap in "IB" and kind not in "n":
            o.append(rng.choice("xa"))
        elif r < .32 and wrap in "IB":
            o.append("e")
        else:
            n = (rng.choice(ns) or (kind == "n")) if not big else rng.choice([4096, 1000, 5000, 8192, 16383, 1])
            o.append("g%d" % int(n))
            got += n
    o += ["g50", "g50", "c"]
    if wrap in "IB":
        o.append("e")
    return o


class S:
    pass


def session(rng, dos):
    s = S()
    s.wrap = rng.choice("DE") if dos else rng.choice("IIIIBST")
    s.kind = rng.choice("ffffffmqncszwWi")
    s.enc, s.set, s.off = 0, -1, 0
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 14, 30])
    if s.kind in "fmqn":
        r = rng.random()
        if s.kind == "n":
            e = 0
        else:
            e = rng.choice([0, 0, 2, 3, 4, 5, 6, rng.randint(7, 38), rng.randint(7, 38), 38])
        f = raw(rng, e, n)
        if s.kind != "n" and e < 6 and r < .5:
            b = rng.choice([BOMS.get(e, b""), BOMS.get(e, b""), BOMS[1] if e < 2 else BOMS.get(e)])
            f = b + f
            if rng.random() < .25:
                s.enc = rng.choice([2, 3, 4, 5, 6, 13])  # the byte order mark decides
        elif e:
            if e >= 6 and r > .9:
                f = BOMS[1] + f
                s.set = e
            elif r > .8:
                s.set = e
            else:
                s.enc = e
        s.F = f
        if s.kind == "f" and rng.random() < .15:
            k = rng.randint(1, 5)
            s.F = bytes(rng.randrange(256) for _ in range(k)) + f
            s.off = k
    elif s.kind in "wW":
        us = []
        for _ in range(n):
            c = codepoint(rng) or 65
            if c >= 0x10000 and rng.random() < .5:
                us += u16(rng, [c])
            else:
                us.append(c)
            if rng.random() < .1:
                us.append(rng.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x7fffffff]))
        s.F = us
    else:
        s.F = raw(rng, 0, n)
        if s.kind == "z":
            s.F = s.F.replace(b"\0", b"@")
    # content outside of the domain: decided by what the file really is
    if s.kind in "fmqn":
        c = s.F[s.off:]
        m = next(((e, len(b)) for e, b in ((5, BOMS[5]), (4, BOMS[4]), (1, BOMS[1]), (2, BOMS[2]), (3, BOMS[3])) if c.startswith(b)), (0, 0))
        if (s.set >= 0 or s.kind == "n") and m[0] > 1:
            return None
        eff = s.set if s.set >= 0 else (m[0] if m[1] else s.enc)
        body = c[m[1]:]
        if eff in (2, 3):
            us = [int.from_bytes(body[i:i + 2], "big" if eff == 2 else "little") for i in range(0, len(body) - 1, 2)]
            if any(0xd800 <= u < 0xdc00 and i + 1 < len(us) and not 0xdc00 <= us[i + 1] < 0xe000 for i, u in enumerate(us)):
                return None
        elif eff in (4, 5):
            us = [int.from_bytes(body[i:i + 4], "big" if eff == 4 else "little") for i in range(0, len(body) - 3, 4)]
            if any(u >= 0x80000000 or 0xd800 <= u < 0xe000 for u in us):
                return None
        elif eff >= 7 and any(PAGES[eff - 7][b] < 0 for b in body):
            return None
        s.page = eff - 6 if eff >= 7 else 0
    else:
        s.page = 0
    s.ops = ops(rng, (len(s.F) + 4) * (4 if s.kind in "wW" or s.page else 2), s.wrap, s.kind)
    return s


def big(rng, dos):
    """around the block size of BufferedInput"""
    s = S()
    s.wrap = "E" if dos else rng.choice("BT")
    s.kind = rng.choice("fcsi")
    s.enc, s.set, s.off, s.page = 0, -1, 0, 0
    n = 16384 + rng.choice([-2, -1, 0, 1, 2, 3, 20])
    f = bytearray(b"abcdefg\n" * (n // 8 + 1))[:n]
    for i in range(16376, min(n, 16392)):
        f[i] = rng.choice(b"\r\n\r\nx")
    if rng.random() < .5:
        f += bytes(f[:rng.choice([1, 100, 16384])])
    s.F = bytes(f)
    s.ops = ops(rng, len(f), s.wrap, s.kind)
    return s


def describe(s):
    return {"kind": s.kind, "wrapper": s.wrap, "encoding": s.enc, "set": s.set, "offset": s.off,
            "input": s.F.hex()[:400] if isinstance(s.F, bytes) else s.F, "operations": s.ops[:60]}


def execute(rep, exe, ss):
    def line(i, s):
        f = s.F.hex() if isinstance(s.F, bytes) else ",".join(map(str, s.F))
        return "%d\t%s\t%s\t%d\t%d\t%d\t%d\t%s\t%s\n" % (i, s.kind, s.wrap, s.enc, s.set, s.page, s.off, f, " ".join(s.ops))

    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"

    crashes = [0]

    def run(part):
        todo = part
        while todo:
            inp = "".join(line(i, s) for i, s in enumerate(todo))
            try:
                p = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60 + len(todo) * .1)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as ex:
                rc, out, err = -99, ex.stdout or b"", b"timeout"
            k = 0
            for l in out.split(b"\n"):
                if l.endswith(b"}"):
                    r = json.loads(l)
                    todo[r["id"]].ev = r["ev"]
                    k = r["id"] + 1
            if k >= len(todo):
                return
            rep.violation("crash:" + json.dumps(describe(todo[k]))[:200], "crash reading %s: exit %s %s" % (json.dumps(describe(todo[k])), rc, err[-1200:].decode("latin1")), describe(todo[k]))
            todo[k].ev = None
            crashes[0] += 1
            todo = todo[k + 1:] if crashes[0] < 40 else []
    for s in ss:
        s.ev = None
    C.pmap(run, [ss[i::C.NCPU] for i in range(C.NCPU)])


def validate(rep, wd, ss, tag):
    ss = [s for s in ss if s.ev]
    ss.sort(key=lambda s: -len(s.F))

    def run(ip):
        i, part = ip
        if not part:
            return [], 0, 0
        f = os.path.join(wd, "in-%s-%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for s in part:
                fh.write(json.dumps({"F": list(s.F), "kind": s.kind if s.kind != "W" else "w", "wrap": s.wrap, "enc": s.enc, "set": s.set,
                                     "page": s.page, "off": s.off, "ev": s.ev}) + "\n")
        r = C.tlc("InputTrace", "INIT Init\nNEXT Next\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n", wd,
                  env={"TRACE": f, "PAGES": os.path.join(C.VERIF, "data", "codepages.json")}, workers=1, timeout=800, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC InputTrace failed: " + r.out[-3000:])
        return [(part[int(a) - 1], int(b), t[:300]) for a, b, t in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),([^"]*?)>>\s*(?=\n(?:<<|\S)|$)', r.out)] or \
               [(part[int(a) - 1], int(b), "") for a, b in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),', r.out)], r.distinct, r.generated
    for bad, st, tr in C.pmap(run, [(i, ss[i::C.NCPU]) for i in range(C.NCPU)]):
        rep.add(states=st, transitions=tr)
        for s, l, t in bad:
            ev = s.ev[l - 1]
            rep.violation("input:" + json.dumps(describe(s))[:300], "%s: event %d %s; expected position, next bytes, remaining: %s" % (
                json.dumps(describe(s)), l, json.dumps(ev)[:300], re.sub(r"\s+", " ", t)), describe(s))
    rep.add(events=sum(len(s.ev) for s in ss), traces_validated_against_impl=len(ss))


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 7001 + (12 if prop == "R12" else 13))
    dos = prop == "R13"
    n = {"quick": 12000, "thorough": 120000}[tier]
    if dos:
        n //= 2
    ss = []
    while len(ss) < n:
        s = session(rng, dos)
        if s:
            ss.append(s)
    if not dos:
        # every byte of every code page
        for e in range(6, 39):
            bs = bytes(b for b in range(256) if e == 6 or PAGES[e - 7][b] >= 0)
            for k in range(3):
                s = S()
                s.kind, s.wrap, s.enc, s.set, s.off, s.page, s.F = "f", "I", e, -1, 0, max(0, e - 6), b"a" + bs
                s.ops = (["s"] if k == 0 else []) + ["g%d" % [700, 5, 1][k]] * [2, 160, 800][k]
                ss.append(s)
    for _ in range(16 if tier == "quick" else 64):
        ss.append(big(rng, dos))
    exe = C.build("inpdrv", "asan")
    execute(rep, exe, ss)
    validate(rep, wd, ss, "a")
    rep.add(samples=[describe(s) for s in ss[:6]])
    return rep
