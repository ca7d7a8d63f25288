"""data/unicode13.json: general categories, scripts and blocks of Unicode 13.0 (from the Consortium's files)"""
import json, re, sys
src = sys.argv[1]
cat = {}
first = None
for l in open(src + "/UnicodeData.txt"):
    f = l.split(";")
    c = int(f[0], 16)
    if f[1].endswith(", First>"):
        first = c
        continue
    lo = c
    if f[1].endswith(", Last>"):
        lo = first
    cat.setdefault(f[2], []).append([lo, c])
def merge(r):
    out = []
    for lo, hi in sorted(r):
        if out and lo == out[-1][1] + 1:
            out[-1][1] = hi
        else:
            out.append([lo, hi])
    return out
scr, blk = {}, {}
for l in open(src + "/Scripts.txt"):
    m = re.match(r"([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*;\s*(\w+)", l)
    if m:
        scr.setdefault(m.group(3), []).append([int(m.group(1), 16), int(m.group(2) or m.group(1), 16)])
for l in open(src + "/Blocks.txt"):
    m = re.match(r"([0-9A-F]+)\.\.([0-9A-F]+);\s*(.*?)\s*$", l)
    if m:
        blk["Is" + re.sub(r"[ _]", "", m.group(3))] = [[int(m.group(1), 16), int(m.group(2), 16)]]
json.dump({"category": {k: merge(v) for k, v in sorted(cat.items())}, "script": {k: merge(v) for k, v in sorted(scr.items())},
           "block": blk}, open("data/unicode13.json", "w"), separators=(",", ":"))
