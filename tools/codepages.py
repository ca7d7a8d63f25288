#!/usr/bin/env python3
"""Source of data/codepages.json: reference code pages, from Python's codecs and iconv (KOI8-RU); -1: not used.
cp437 has the graphical characters for the control codes; MacRoman has CR to LF translation; of EBCDIC only the
positions on which the EBCDIC code pages agree are used."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = {7: 'cp437', 8: 'cp850', 9: 'cp858', 11: 'cp1250', 12: 'cp1251', 13: 'cp1252', 14: 'cp1253', 15: 'cp1254', 16: 'cp1255',
         17: 'cp1256', 18: 'cp1257', 19: 'cp1258', 20: 'iso8859_2', 21: 'iso8859_3', 22: 'iso8859_4', 23: 'iso8859_5',
         24: 'iso8859_6', 25: 'iso8859_7', 26: 'iso8859_8', 27: 'iso8859_9', 28: 'iso8859_10', 29: 'iso8859_11', 30: 'iso8859_13',
         31: 'iso8859_14', 32: 'iso8859_15', 33: 'iso8859_16', 34: 'mac_roman', 35: 'koi8_r', 36: 'koi8_u'}


def dec(b, nm):
    try:
        return ord(bytes([b]).decode(nm))
    except Exception:
        return -1


pages = []
for e in range(7, 39):
    if e == 10:
        t = [dec(b, 'cp037') if dec(b, 'cp037') == dec(b, 'cp500') == dec(b, 'cp1026') and 0 <= dec(b, 'cp037') < 128 else -1 for b in range(256)]
    elif e == 37:
        t = []
        for b in range(256):
            r = subprocess.run(["iconv", "-f", "KOI8-RU", "-t", "UTF-32BE"], input=bytes([b]), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            t.append(int.from_bytes(r.stdout, "big") if r.returncode == 0 and len(r.stdout) == 4 else -1)
    elif e == 38:
        t = [(i * 157 + i * i * 3 + 1) % 0xD800 for i in range(256)]
    else:
        t = [dec(b, names[e]) for b in range(256)]
    if e == 7:
        g = "☺☻♥♦♣♠•◘○◙♂♀♪♫☼►◄↕‼¶§▬↨↑↓→←∟↔▲▼"
        for i, c in enumerate(g):
            t[i + 1] = ord(c)
        t[127] = 0x2302
    if e == 34:
        t[13] = 10
    pages.append(t)
json.dump(pages, open(os.path.join(V, "data", "codepages.json"), "w"))
