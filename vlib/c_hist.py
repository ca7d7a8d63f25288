"""R07 input delivery, R08 positions, R09 operation histories, R11 event handler: sessions of the real matcher are
behaviours of Matcher.tla"""
import random
from . import common as C, regen, sess
from .c_match import gen_pattern

UC = ["\u00e9", "\u20ac", "\U0001f600", "\u0416", "\uffff", "\u0800", "\u07ff", "\U00010000", "\u0080"]


def utf8_text(rng, g, ids, ab, parts, maxlen, maxline=None):
    out = b""
    line = 0
    for _ in range(parts):
        r = rng.random()
        if r < .25:
            s = rng.choice(UC).encode("utf-8")
        elif r < .5:
            s = bytes([rng.choice(b" \n\tx_.\r0")])
        else:
            s = sess.sample(rng, g.nodes, rng.choice(ids))[:16]
            if rng.random() < .2:
                s = sess.near(rng, s, ab)
        if maxline:
            for ch in s:
                if line >= maxline and ch != 10:
                    out += b"\n"
                    line = 0
                out += bytes([ch])
                line = 0 if ch == 10 else line + 1
        else:
            out += s
        if len(out) > maxlen:
            break
    return out


def wrap_lines(inp, maxline):
    out, line = bytearray(), 0
    for ch in inp:
        if line >= maxline and ch != 10:
            out.append(10)
            line = 0
        out.append(ch)
        line = 0 if ch == 10 else line + 1
    return bytes(out)


def schedule(rng):
    r = rng.random()
    if r < .2:
        return [1]
    if r < .4:
        return [rng.randint(1, 4)]
    if r < .6:
        return [rng.choice([31, 32, 33, 63, 64, 65, 62])]
    return [rng.choice([1, 2, 3, 5, 7, 16, 30, 31, 32, 33, 63, 64, 200]) for _ in range(rng.randint(1, 5))]


def source(rng, inplace=True):
    s = rng.choice(["c", "g", "g", "g", "w", "w", "p" if inplace else "g", "C", "B", "i", "n", "f", "s"])
    if s == "n":
        s = "n%d" % rng.choice([1, 2, 3, 7, 16, 31, 32])
    return s


def hist_ops(rng, n, inplace, noedit, inp):
    ops = []
    mode = rng.choice("SSFFP")
    mixed = rng.random() < .25
    lines = rng.random() < .5     # line() and span() are undefined after unput()
    prev = ""
    stale = nul = False
    while len(ops) < n:
        r = rng.random()
        m = rng.choice("SFP") if mixed else mode
        if prev == "m":
            m = "S"
            if r > .15:
                ops.append("S")
                prev = "S"
                continue
        if r < .40:
            o = m + rng.choice(["", "", "", "1", "2", "2", "3", "4", "5"])
        elif r < .52:
            o = "t"
        elif r < .58:
            o = "i"
        elif r < .62:
            o = "I"
        elif r < .66:
            o = "k"
        elif r < .70:
            o = None if noedit or lines else "u%d" % rng.choice(b"ab \nx")
        elif r < .72:
            o = None if noedit or lines else "U%d" % ord(rng.choice(UC + ["a", "\n"]))
        elif r < .75:
            o = "c%d" % (rng.choice(inp) if inp and rng.random() < .8 else 126)
            if int(o[1:]) > 127 or int(o[1:]) == 0:
                o = "c10"
        elif r < .77:
            o = "w%d" % ord(rng.choice(UC + ["a", "\n"]))
        elif r < .80:
            if len(inp) > 2 and rng.random() < .8:
                a = rng.randrange(len(inp) - 1)
                s = inp[a:a + rng.choice([1, 2, 2, 3, 4])]
            else:
                s = rng.choice([b"ab", b"zz", b"aa", b"\n\n"])
            o = None if b"\0" in s else "C" + s.hex()
        elif r < .83:
            o = "m" if m[0] == "S" else None
        elif r < .87:
            o = "l%d" % rng.choice([0, 1, 1, 2, 3])
            if o == "l0" and rng.random() < .7:
                o = "l1"
        elif r < .875:
            o = "r"
        elif r < .90:
            o = rng.choice(["L", "W", "N"]) if lines else None
        elif r < .94:
            o = rng.choice("ehbB")
        elif r < .955:
            o = "y%d" % rng.choice([0, 1])
        elif r < .985:
            o = rng.choice(["q", "z", "a", "a", "a", "=", "j"])
            if o == "a":
                o = "a%d" % rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12] + [8, 9] * 3 * lines)
            elif o == "=":
                o = "=%d%d" % (rng.choice([0, 0, 1]), rng.choice([0, 1, 2, 3, 4, 4, 5]))
            elif o == "j":
                o = "j%d" % rng.choice([0, 1])
        else:
            o = None if noedit else rng.choice(["T1", "T2", "T4", "n5", "n1"])
        if o and o[0] in "mltqza=" and stale:
            continue
        if o in ("a8", "a9") and nul:
            continue          # eol() is to be used before text()
        if o:
            nul = o in ("t", "N", "r") or nul and o[0] not in "SFP"
            stale = o[0] in "uU" or stale and o[0] not in "SFPrcCw"
            ops.append(o)
            prev = o[0]
            if o[0] in "uUiI" and rng.random() < .04:
                # a burst: put back more than the buffer holds, read past its end
                ops += [o if rng.random() < .8 or o[0] in "iI" else "u%d" % rng.choice(b"ab \n") for _ in range(rng.choice([8, 20, 33, 70]))]
    return ops


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 15485863 + int(prop[1:]))
    q = tier == "quick"
    groups = {}
    if prop == "R09":
        n = 36000 if q else 200000
        for i in range(n):
            if i % 3 == 0:
                g, ids, pat, popts, ab = gen_pattern(rng)
            small = i % 2
            inp = utf8_text(rng, g, ids, ab, rng.choice([1, 3, 6, 12, 25]), 90 if small else 40, 26 if small else None)
            src = source(rng)
            if rng.random() < .15 and inp:
                k = rng.randrange(len(inp))
                inp = inp[:k] + b"\0" * rng.choice([1, 1, 2]) + inp[k + rng.choice([0, 1]):]
            if src == "C":
                inp = inp.replace(b"\0", b"@")
            if small:
                inp = wrap_lines(inp, 26)
            ops = hist_ops(rng, rng.choice([3, 6, 10, 16]), src == "p", src == "p" or rng.random() < .4, inp)
            ss = sess.Session(g.nodes, ids, pat, inp, ops, popts, N=rng.random() < .15, src=src, sched=schedule(rng))
            groups.setdefault("asan" if small else "std", []).append(ss)
    elif prop == "R07":
        n = 12000 if q else 60000
        for i in range(n):
            if i % 4 == 0:
                g, ids, pat, popts, ab = gen_pattern(rng)
                parts = rng.choice([3, 8, 15, 30, 60])
                base = sess.text(rng, g.nodes, ids, ab, parts, pnoise=.25, maxlen=rng.choice([40, 80, 150, 260]))
                if rng.random() < .7:
                    base = wrap_lines(base, 26)
            src = source(rng)
            inp = base.replace(b"\0", b"@") if src == "C" else base
            o = rng.choice("SFFP")
            ops = ["M"] if rng.random() < .1 else [o + "*", o]
            if rng.random() < .2:
                ops = [rng.choice([o, o, o, "i", "k"]) for _ in range(rng.randint(1, 4))] + ["r"]
            ss = sess.Session(g.nodes, ids, pat, inp, ops, popts, N=rng.random() < .1, src=src, sched=schedule(rng))
            groups.setdefault(("small", "asan", "small", "std")[i % 4], []).append(ss)
    elif prop == "R08":
        n = 12000 if q else 60000
        for i in range(n):
            if i % 4 == 0:
                g, ids, pat, popts, ab = gen_pattern(rng)
                if rng.random() < .35:
                    # rare matches: long stretches are counted at once
                    g = regen.Gen(rng, alphabet=b"#", wide=0)
                    k, t, _ = g.lit()
                    ids, pat, popts, ab = [k], t.encode("latin1"), "", b"#"
            v = ("small", "std", "port", "avx")[i % 4]
            if ab == b"#":
                inp = b""
                for _ in range(rng.randint(1, 4)):
                    inp += bytes(rng.choice(b"ab\n\n\t\r\n\xc3\xa9\x80x") for _ in range(rng.choice([3, 15, 31, 33, 64, 70, 130])))
                    inp += sess.sample(rng, g.nodes, ids[0])
            else:
                inp = utf8_text(rng, g, ids, ab, rng.choice([2, 5, 10, 20, 40]), rng.choice([30, 80, 150]))
            if v == "small":
                inp = wrap_lines(inp, 26)
            o = rng.choice("SFFP")
            if rng.random() < .6:
                ops = [o + "!*", "q!"]
            else:
                ops = []
                for _ in range(rng.randint(2, 8)):
                    ops += [rng.choice([o, o + "!", o + "!", "q!", "n%d" % rng.choice([1, 7, 100]), "c10", "C610a" if False else "c97", "L", "z", "l1", "i",
                                        "T%d" % rng.choice([1, 2, 4, 8])])]
                ops.append("q!")
            ss = sess.Session(g.nodes, ids, pat, inp, ops, popts, N=rng.random() < .1, T=rng.choice([1, 2, 4, 8, 8]), src=source(rng) if b"\0" not in inp else "g", sched=schedule(rng))
            groups.setdefault(v, []).append(ss)
    elif prop == "R11":
        n = 12000 if q else 20000
        for i in range(n):
            if i % 4 == 0:
                g, ids, pat, popts, ab = gen_pattern(rng)
                parts = rng.choice([8, 15, 30, 60])
                base = sess.text(rng, g.nodes, ids, ab, parts, noise=rng.choice([b" \n", b"\n", b" "]), pnoise=.4, maxlen=rng.choice([80, 150, 260]))
            src = source(rng, False)
            inp = base.replace(b"\0", b"@") if src == "C" else base
            o = rng.choice("SFFFP")
            ops = ["v"]
            for _ in range(rng.randint(1, 30)):
                ops.append(o)
                r = rng.random()
                if r < .3:
                    ops.append("d")
                elif r < .4:
                    ops.append("D")
                elif r < .5:
                    ops.append(rng.choice(["L", "i", "q", "c10"]))
            if rng.random() < .8:
                ops += [o + "*", "D"]
            ss = sess.Session(g.nodes, ids, pat, inp, ops, popts, src=src, sched=schedule(rng))
            groups.setdefault(("small", "asan")[i % 2], []).append(ss)
    for v, part in sorted(groups.items()):
        exe = C.build("mdrv", v)
        sess.judge(rep, wd, exe, part, v, v)
        rep.add(samples=[s.describe() for s in part[:3]])
    return rep
