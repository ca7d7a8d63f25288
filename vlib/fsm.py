"""Pattern export, opcode decoding and the FSM product check."""
import json, os, re, subprocess
from . import common as C
from . import regen

META_MIN = 0x100


def export(exe, wd, items, tag="x"):
    """items: list of (id, options, regex bytes) -> dict id -> result; split over processes"""
    n = C.NCPU
    chunks = [items[i::n] for i in range(n)]

    def run(ic):
        i, ch = ic
        if not ch:
            return []
        d = os.path.join(wd, "exp-%s-%d" % (tag, i))
        os.makedirs(d, exist_ok=True)
        inp = "".join("%d\t%s\t%s\n" % (a, o, r.hex()) for a, o, r in ch)
        p = subprocess.run([exe, d], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        out = [json.loads(l) for l in p.stdout.splitlines() if l.endswith("}")]
        if len(out) < len(ch):      # crashed on the next one
            a = ch[len(out)]
            out.append({"id": a[0], "crash": p.returncode})
            rest = run(("%s-%d" % (i, len(out)), ch[len(out):]))
            out += rest
        return out
    res = {}
    for r in C.pmap(run, list(enumerate(chunks))):
        for x in r:
            res[x["id"]] = x
    return res


def decode(ops):
    """opcode words -> list of states; state 1 is the start state.
    state: {"acc","redo","heads","tails","edges":[[lo,hi,target]],"meta":[[meta,target]]}; target 0 is dead"""
    order, states, idx = [0], {}, {0: 1}

    def ref(pc):
        if pc not in idx:
            idx[pc] = len(idx) + 1
            order.append(pc)
        return idx[pc]
    k = 0
    n = len(ops)
    while k < len(order):
        pc = order[k]
        k += 1
        st = {"acc": 0, "redo": 0, "heads": [], "tails": [], "edges": [], "meta": []}
        seen_goto = False
        covered = 0
        while True:
            if pc >= n:
                raise ValueError("opcode table overrun at %d" % pc)
            op = ops[pc]
            if op == 0xFD000000:
                st["redo"] = 1
                pc += 1
                continue
            if (op & 0xFE000000) == 0xFE000000 and (op & 0xFF000000) != 0xFF000000 and not is_goto(op):
                st["acc"] = op & 0xFFFFFF
                pc += 1
                continue
            if (op & 0xFF000000) == 0xFC000000 and not is_goto(op):
                st["tails"].append(op & 0xFFFF)
                pc += 1
                continue
            if (op & 0xFF000000) == 0xFB000000 and not is_goto(op):
                st["heads"].append(op & 0xFFFF)
                pc += 1
                continue
            # goto
            lo, hi, tgt = op >> 24, (op >> 16) & 0xFF, op & 0xFFFF
            step = 1
            if tgt == 0xFFFE:
                tgt = ops[pc + 1] & 0xFFFFFF
                step = 2
                t = ref(tgt)
            elif tgt == 0xFFFF:
                t = 0
            else:
                t = ref(tgt)
            if hi == 0 and lo > 0:
                st["meta"].append([META_MIN + lo, t])
            else:
                st["edges"].append([lo, hi, t])
                covered += hi - lo + 1
                # the table ends a state with the edge that completes 0..255
                if hi == 255 and covers(st["edges"]):
                    break
                if covers(st["edges"]):
                    break
            pc += step
        states[len(states) + 1] = st
    return [states[i + 1] for i in range(len(states))]


def is_goto(op):
    return ((op << 8) & 0xFFFFFFFF) >= (op & 0xFF000000)


def covers(edges):
    p = 0
    for lo, hi, _ in sorted(e[:3] for e in edges):
        if lo > p:
            return False
        p = max(p, hi + 1)
    return p >= 256


def mkcase(cid, nodes, alts, states, pat, lazy=()):
    iv = [e[:2] for s in states for e in s["edges"]] + [x for n in nodes for x in n["set"]]
    return {"id": cid, "nodes": nodes, "alts": alts, "lazy": list(lazy),
            "dfa": [{"acc": s["acc"], "edges": s["edges"]} for s in states],
            "reps": regen.classes_reps(iv), "pat": pat.hex()}


CFG = "INIT Init\nNEXT Next\nINVARIANT AgreeReport\nCHECK_DEADLOCK FALSE\n"
CFG_STRICT = "INIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n"


def product(wd, cases, tag, timeout=800):
    """run the product check over cases on NCPU TLC processes; returns (mismatching case list, states, transitions)"""
    cases = sorted(cases, key=lambda c: -len(c["dfa"]) * len(c["reps"]))
    n = min(C.NCPU, max(1, len(cases)))
    parts = [cases[i::n] for i in range(n)]

    def run(ip):
        i, part = ip
        if not part:
            return [], 0, 0
        f = os.path.join(wd, "prod-%s-%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for c in part:
                fh.write(json.dumps(c) + "\n")
        r = C.tlc("FsmEquiv", CFG, wd, env={"CASES": f}, workers=1, timeout=timeout, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC FsmEquiv failed: " + r.out[-3000:])
        bad = sorted({int(m) for m in re.findall(r'<<"MISMATCH", (\d+),', r.out)})
        return [part[b - 1] for b in bad], r.distinct, r.generated
    bad, st, tr = [], 0, 0
    for b, s, t in C.pmap(run, list(enumerate(parts))):
        bad += b
        st += s
        tr += t
    return bad, st, tr


def counterexample(wd, case):
    """shortest input on which machine and specification differ (TLC trace)"""
    f = os.path.join(wd, "cex-%d.ndjson" % case["id"])
    with open(f, "w") as fh:
        fh.write(json.dumps(case) + "\n")
    r = C.tlc("FsmEquiv", CFG_STRICT, wd, env={"CASES": f}, workers=1, timeout=120)
    # recover the bytes from the trace: replay is done by the caller through the state numbers
    qs = [int(x) for x in re.findall(r"/\\ q = (\d+)", r.out)]
    path = []
    for a, b in zip(qs, qs[1:]):
        c = None
        for rep in case["reps"]:
            t = 0
            for lo, hi, tg in case["dfa"][a - 1]["edges"] if a else []:
                if lo <= rep <= hi:
                    t = tg
                    break
            if t == b:
                c = rep
                break
        path.append(c)
    return path, r.violated
