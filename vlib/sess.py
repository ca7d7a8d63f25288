"""Sessions with the real matcher: generation helpers, execution, trace validation against MatcherTrace.tla."""
import json, os, re, subprocess
from . import common as C


def sample(rng, nodes, nid, budget=12):
    """a random string of the language of node nid"""
    n = nodes[nid - 1]
    op = n["op"]
    if op == "leaf":
        if not n["set"]:
            return b""
        ascii_ = [[max(lo, 32), min(hi, 126)] for lo, hi in n["set"] if max(lo, 32) <= min(hi, 126)]
        st = ascii_ if ascii_ and rng.random() < .85 else n["set"]
        lo, hi = rng.choice(st)
        return bytes([rng.choice([lo, hi, rng.randint(lo, hi)])])
    if op == "cat":
        return b"".join(sample(rng, nodes, k, budget) for k in n["kids"])
    if op == "alt":
        return sample(rng, nodes, rng.choice(n["kids"]), budget)
    if op == "rep":
        hi = n["hi"] if n["hi"] >= 0 else n["lo"] + rng.choice([0, 1, 1, 2, 3, 5])
        k = rng.randint(n["lo"], max(n["lo"], hi))
        return b"".join(sample(rng, nodes, n["kids"][0], budget) for _ in range(min(k, 8) if budget else n["lo"]))
    return b""


def near(rng, s, ab):
    """a near miss of s"""
    if not s:
        return bytes([rng.choice(ab)])
    r = rng.random()
    i = rng.randrange(len(s))
    if r < .4:
        return s[:i]
    if r < .6:
        return s[:i] + bytes([rng.choice(ab)]) + s[i + 1:]
    if r < .8:
        return s[:i] + s[i + 1:]
    return s[:i] + bytes([rng.choice(ab)]) + s[i:]


def text(rng, nodes, alts, ab, parts, noise=b" \n", maxlen=60, pnoise=.3, nul=True):
    out = b""
    for _ in range(parts):
        r = rng.random()
        if r < pnoise:
            out += bytes(rng.choice(noise if rng.random() < .6 else ab) for _ in range(rng.choice([1, 1, 2, 4])))
        else:
            s = sample(rng, nodes, rng.choice(alts))
            if len(s) > 24:
                s = s[:24]
            if r > .8:
                s = near(rng, s, ab)
            out += s
        if len(out) > maxlen:
            break
    out = out[:maxlen]
    if not nul:
        out = out.replace(b"\0", b"@")
    return out


class Session:
    __slots__ = ("nodes", "alts", "asserts", "neg", "regex", "popts", "A", "N", "T", "src", "inp", "sched", "ops", "ev", "tie", "look", "W", "lazy")

    def __init__(self, nodes, alts, regex, inp, ops, popts="", asserts=(), neg=(), A=False, N=False, T=8, src="c", sched=(), tie=False, look=(), W=False, lazy=()):
        self.lazy = list(lazy)
        self.W = W
        self.look = [list(x) for x in look]
        self.tie = tie
        self.nodes, self.alts, self.regex, self.inp, self.ops = nodes, alts, regex, inp, ops
        self.popts, self.asserts, self.neg, self.A, self.N, self.T = popts, list(asserts), list(neg), A, N, T
        self.src, self.sched, self.ev = src, list(sched), None

    def mopts(self):
        return ("A" if self.A else "") + ("N" if self.N else "") + ("W" if self.W else "") + ("T=%d" % self.T if self.T != 8 else "")

    def describe(self):
        return {"regex": self.regex.decode("latin1"), "pattern_options": self.popts, "matcher_options": self.mopts(),
                "input": self.inp.decode("latin1"), "source": self.src, "schedule": self.sched, "operations": self.ops}


def rexbytes(s):
    return s if isinstance(s, bytes) else s.encode("latin1")


def execute(exe, sessions, env=None):
    """run the sessions on the real code; fills s.ev (None when rejected), returns [(session, crash text)]"""
    def line(i, s):
        return "%d\t%s\t%s\t%s\t%s\t%s\t%s\t%s\n" % (i, s.regex.hex(), s.popts, s.mopts(), s.src, s.inp.hex(),
                                                    ",".join(map(str, s.sched)), " ".join(s.ops))
    n = C.NCPU
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
    if env:
        e.update(env)

    def run(part):
        bad = []
        todo = list(part)
        while todo:
            inp = "".join(line(i, s) for i, s in enumerate(todo))
            try:
                p = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=20 + len(todo) * 0.2)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as ex:
                rc, out, err = -99, ex.stdout or b"", b"timeout: no progress"
            k = 0
            for l in out.split(b"\n"):
                if not l.endswith(b"}"):
                    continue
                try:
                    r = json.loads(l)
                except ValueError:
                    break
                todo[r["id"]].ev = r.get("ev")
                k = r["id"] + 1
            if k >= len(todo) and rc == 0:
                break
            if k >= len(todo):
                bad.append((todo[-1], "exit code %s %s" % (rc, err[-1500:].decode("latin1"))))
                break
            bad.append((todo[k], "exit code %s %s" % (rc, err[-1500:].decode("latin1"))))
            todo[k].ev = None
            todo = todo[k + 1:] if len(bad) < 8 else []
        return bad
    res = []
    for b in C.pmap(run, [sessions[i::n] for i in range(n)]):
        res += b
    return res


CFG = "INIT Init\nNEXT Next\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"


def validate(wd, sessions, tag="t", module="MatcherTrace", timeout=820, mem="3g", cfg=CFG):
    """check the recorded sessions against the specification; returns (rejected [(session, event no, expected)], states, transitions, events)"""
    ss = [s for s in sessions if s.ev is not None]
    ss.sort(key=lambda s: -len(s.inp) * len(s.ev))
    n = min(C.NCPU, max(1, len(ss)))

    def run(ip):
        i, part = ip
        if not part:
            return [], 0, 0
        f = os.path.join(wd, "trace-%s-%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for s in part:
                fh.write(json.dumps({"P": {"nodes": s.nodes, "alts": s.alts, "asserts": s.asserts, "neg": s.neg, "look": s.look, "pref": 0, "half": s.W, "tie": s.tie, "lazy": s.lazy},
                                     "O": {"A": s.A, "N": s.N, "T": s.T}, "I": list(s.inp), "ev": s.ev}) + "\n")
        r = C.tlc(module, cfg, wd, env={"TRACE": f}, workers=1, timeout=timeout, mem=mem)
        if not r.ok:
            raise C.CheckError("TLC %s failed: %s" % (module, r.out[-3000:]))
        bad = []
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+), (.*?)>>\s*(?=\n(?:<<|\S)|$)', r.out, re.S):
            bad.append((part[int(m.group(1)) - 1], int(m.group(2)), m.group(3)[:600]))
        if r.out.count('"REJECT"') != len(bad):
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),', r.out):
                if not any(b[0] is part[int(m.group(1)) - 1] for b in bad):
                    bad.append((part[int(m.group(1)) - 1], int(m.group(2)), "see event"))
        return bad, r.distinct, r.generated
    bad, st, tr = [], 0, 0
    for b, s, t in C.pmap(run, [(i, ss[i::n]) for i in range(n)]):
        bad += b
        st += s
        tr += t
    return bad, st, tr, sum(len(s.ev) for s in ss)


def show(s, l, exp):
    ev = s.ev[l - 1]
    return "%s: event %d %s got %s; specification allows %s" % (json.dumps(s.describe()), l, s.ev[l - 1]["o"],
        json.dumps({k: v for k, v in ev.items() if k != "o"}), re.sub(r"\s+", " ", exp))


def judge(rep, wd, exe, sessions, key, tag="t", env=None):
    """execute, validate, re-run what was rejected, report"""
    crashes = execute(exe, sessions, env)
    for s, t in crashes:
        again = execute(exe, [s], env)
        if again:
            rep.violation("%s:crash" % key, "crash in %s: %s" % (json.dumps(s.describe()), t), s.describe())
    bad, st, tr, ne = validate(wd, sessions, tag)
    rep.add(states=st, transitions=tr, events=ne, traces_validated_against_impl=sum(1 for s in sessions if s.ev is not None))
    if bad:
        first = [b[0] for b in bad]
        old = [(s, s.ev, l, e) for s, l, e in bad]
        execute(exe, first, env)
        bad2, _, _, _ = validate(wd, first, tag + "r")
        still = {id(b[0]) for b in bad2}
        for s, ev, l, e in old:
            if id(s) in still:
                s.ev = ev
                rep.violation("%s:%s:%s" % (key, s.regex.decode("latin1"), s.inp.decode("latin1")), show(s, l, e), s.describe())
    return bad
