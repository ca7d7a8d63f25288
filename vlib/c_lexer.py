"""R15: generated scanners: rules, start conditions, actions, inputs (Lexer.tla)"""
import json, os, random, re, subprocess
from . import c_lazy, common as C, regen, sess
from .c_anchor import nullable, part, within
from .c_uni import inter


class LexGen(regen.Gen):
    """regexes as they are written in lexer specifications"""

    def __init__(self, rng, macros=None, **kw):
        super().__init__(rng, **kw)
        self.macros = macros if macros is not None else []
        self.utf8, self.unicode = 0, False
        self.classes = []  # definitions that are bracket lists: name, set
        # a pattern that ends in \ continues on the next line
        self.spaces = ["", "", " ", "\\\n ", "\t "] if self.freespace else [""] * 30 + ["\\\n   "]

    def char_text(self, c, inlist=False):
        if not inlist and c == 32:
            return self.r.choice(["\\x20", '" "', "[ ]", "\\x{20}"])
        if not inlist and c in b"<%#~'`@!&,;:=->_":
            return self.r.choice(["\\x%02x" % c, '"%c"' % c])
        while True:
            t = super().char_text(c, inlist)
            # an octal escape takes up to four digits
            if not (t.startswith("\\0") and any(48 <= d < 56 for d in self.ab)):
                return t

    def blist(self):
        while True:
            k = len(self.nodes)
            t = self.leaf()
            if t[1][:1] == "[" and t[1][-1:] == "]" and self.nodes[-1]["op"] == "leaf" and len(self.nodes) == k + 1:
                return t[1], self.nodes.pop()["set"]
            del self.nodes[k:]

    def ops(self):
        """a bracket list combined with lists given by definitions"""
        cl, self.classes = self.classes, []
        ma, self.macros = self.macros, []
        u8, self.utf8 = self.utf8, 0
        r = self.r
        for _ in range(9):
            name, st = r.choice(cl)
            t, s = self.blist()
            o = r.choice("|&-" if not self.icase else "|")
            f = {"|": lambda a, b: regen.norm(a + b), "&": inter, "-": lambda a, b: inter(a, regen.compl(b))}[o]
            if r.random() < .5:
                neg = t[1] == "^"
                s = regen.compl(s) if neg else s
                s = f(s, st)
                t = t[:-1] + o + o + "{" + name + "}]"
                s = regen.compl(s) if neg else s
                if self.unicode and neg:
                    continue
            else:
                w = r.choice([o, "+"]) if o == "|" else o
                if r.random() < .5:
                    s, t = f(s, st), t + "{" + w + "}{" + name + "}"
                else:
                    n2, s2 = r.choice(cl)
                    s, t = (f(st, s), "{" + name + "}{" + w + "}" + t) if r.random() < .6 else (f(st, s2), "{" + name + "}{" + w + "}{" + n2 + "}")
            if s:
                break
        else:
            s, t = [[97, 97]], "a"
        self.classes, self.macros, self.utf8 = cl, ma, u8
        return self.node(op="leaf", set=s), t, 3

    def leaf(self):
        if self.classes and self.r.random() < .15:
            return self.ops()
        if self.macros and self.r.random() < .25:
            name, nid = self.r.choice(self.macros)
            return nid, "{" + name + "}", 3
        if self.r.random() < self.utf8:
            # one character, of which the bytes are not repeated unless it is in a group or the option unicode is given
            u = self.r.choice(["\u20ac", "\u00b7", "\u3042", "\U0001f600", "\u00b1"])
            b = u.encode()
            ids = [self.node(op="leaf", set=[[c, c]]) for c in b]
            nid = self.node(op="cat", kids=ids)
            t = b.decode("latin1")
            if self.unicode and self.r.random() < .4:
                c = self.r.choice(b"abc")
                lid = self.node(op="leaf", set=self.fold([[c, c]]))
                return self.node(op="alt", kids=[nid, lid]), self.r.choice(["[" + t + chr(c) + "]", "[" + chr(c) + t + "]"]), 3
            if self.unicode:
                return nid, self.r.choice([t, t, "\\u{%x}" % ord(u), "\\x{%X}" % ord(u)]), 3
            return nid, self.r.choice([t, "(" + t + ")", '"' + t + '"']), 2
        while True:
            k = len(self.nodes)
            t = super().leaf()
            if self.unicode and (t[1] == "." or self.nodes[t[0] - 1]["set"][-1][1] > 127):
                del self.nodes[k:]
                continue
            # whether letter case properties fold is not specified
            if not (self.icase and re.search("[uU]pper|[lL]ower|\\\\[ulUL]", t[1])):
                # \u{...} is a code point, also when {...} is a name
                return t if t[1] != "\\u" else (t[0], "(\\u)", 3)
            del self.nodes[k:]

    def lit(self):
        if self.r.random() < .2:
            n = self.r.choice([1, 2, 3, 4])
            cs = [self.r.choice(self.ab if self.r.random() < .6 else b" +*?(){}[]|.^$/<%#'-a") for _ in range(n)]
            cs = [c for c in cs if 32 <= c < 127] or [97]
            ids = [self.node(op="leaf", set=self.fold([[c, c]])) for c in cs]
            nid = ids[0] if len(ids) == 1 else self.node(op="cat", kids=ids)
            return nid, '"' + bytes(cs).decode() + '"', 2
        return super().lit()


def names(rng, n):
    """names of the start conditions as they are written in rules (- stands for _), and in actions"""
    t = ["INITIAL"] + [rng.choice(["ST%d", "ST%d", "ST%d", "_s%d", "st-%d", "Q-_%d", "\u00c3\u00a9t%d", "Z\u00ce\u00b1_%d"]) % i for i in range(1, n)]
    return t, [x.replace("-", "_") for x in t]


def op(o, n=0):
    return {"o": o, "n": n, "x": []}


CODE = {  # operation: (RE/flex action, Flex action)
    "begin": ("start(%s);", "BEGIN %s;"), "push": ("push_state(%s);", "yy_push_state(%s);"), "pop": ("pop_state();", "yy_pop_state();"),
    "more": ("matcher().more();", "yymore();"), "less": ("if (lg->burn()) matcher().less(%d);", "if (lg->burn()) yyless(%d);"),
    "unput": ("if (lg->burn()) matcher().unput('\\x%02x');", "if (lg->burn()) unput('\\x%02x');"),
    "input": ("{ int c = matcher().input(); lg->val(this, \"i\", c); }",) * 2,
    "peek": ("{ int c = matcher().peek(); lg->val(this, \"i\", c); }",) * 2,
    "skip": ("{ bool b = matcher().skip('\\x%02x'); lg->val(this, \"i\", b); }",) * 2,
    "echo": ("echo();", "ECHO;"), "put": ("out().put('\\x%02x');", "output('\\x%02x');"),
    "lineno": ("lineno(%d);", "matcher().lineno(%d);"),
    "text": ("lg->val(this, \"t\", 0, str());", "lg->val(this, \"t\", 0, std::string(YYText(), yyleng));"),
    "open": ("lx_open(%d);",) * 2, "close": ("lx_close();",) * 2,
    "quit": ("if (lg->depth <= 1) return 0;",) * 2,
    "again": ("if (lg->fuel > 0) { lg->fuel -= 5; break; }", "if (lg->fuel > 0) { lg->fuel -= 5; break; }"),
    "return": ("return %d;",) * 2,
}


def code(o, flex, nm):
    t = CODE[o["o"]][1 if flex else 0]
    if o["o"] in ("begin", "push"):
        return t % nm[o["n"]]
    if o["o"] == "open":
        return t % (o["n"] - 1)
    return t % o["n"] if "%" in t else t


def gen_ops(rng, nst, find, ab, eof=False):
    ops = []
    if eof:
        for _ in range(rng.choice([0, 0, 1])):
            ops.append(op(rng.choice(["begin", "push"]), rng.randrange(nst)) if rng.random() < .8 else op("pop"))
        r = rng.random()
        if r < .45:
            ops += [op("quit"), op("close")]
        elif r < .7:
            ops += [op("again"), op("return", 0)]
        else:
            ops += [op("return", 0)]
        return ops
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        k = rng.choice(["begin", "begin", "push", "pop", "echo", "put", "text", "lineno", "peek"])
        n = rng.randrange(nst) if k in ("begin", "push") else rng.choice(ab) if k == "put" else rng.choice([1, 5, 100]) if k == "lineno" else 0
        ops.append(op(k, n))
    r = rng.random()
    if r < .12 and not find:
        ops.append(op("more"))
    elif r < .22:
        ops.append(op("less", rng.choice([1, 1, 2, 3])))
        if rng.random() < .3:
            ops.append(op("echo"))
    elif r < .28:
        ops.append(op("unput", rng.choice([c for c in ab if c < 128])))
    elif r < .34:
        ops.append(op("input"))
    elif r < .38:
        ops.append(op("skip", rng.choice([c for c in ab if c < 128])))
    elif r < .44:
        ops.append(op("open", rng.choice([2, 3])))
    if rng.random() < .2:
        ops.append(op("return", rng.choice([1, 2, 7])))
    return ops


NOISE = ['const char *q = "}"; (void)q;', "char c_ = '}'; (void)c_;", "/* } */", "/* it's */", "// } \"\n ", 'const char *q_ = "\\"{"; (void)q_;', "char d_ = '\"'; (void)d_;", "/*/ { */"]


class Spec:
    """one random lexer specification: its text and its model"""

    def __init__(self, rng, i, iface=False):
        self.id = i
        self.rng = rng
        r = rng.random
        self.mode = rng.choice(["plain", "plain", "plain", "anchor", "look", "neg"])
        self.flex = r() < .3
        self.find = r() < .15
        self.nodef = not self.find and r() < .12
        self.icase, self.dotall, self.free = r() < .12, r() < .12, r() < .15
        self.wrap = r() < .3
        self.tab = 8
        self.opts = ["namespace=n%d" % i, "lexer=L%d" % i]
        self.how = rng.choice(["", "", "full", "fast", "fast"])
        if self.how:
            self.opts.append(self.how)
        for f, o in ((self.flex, "flex"), (self.find, "find"), (self.nodef, "nodefault"), (self.icase, "case-insensitive"), (self.dotall, "dotall"), (self.free, "freespace")):
            if f:
                self.opts.append(o)
        if r() < .1:
            self.opts.append(rng.choice(["interactive", "batch", "always-interactive"]))
        if r() < .1:
            self.tab = rng.choice([1, 2, 4])
            self.opts.append("tabs=%d" % self.tab)
        if r() < .1:
            self.opts.append("noindent")
        if r() < .1:
            self.opts.append("nounput" if self.flex else "indent")
        if r() < .1:
            self.opts.append(rng.choice(["debug", "debug", "perf-report", "verbose", "noline", "nowarn", "lex-compat" if False else "noline"]))
        if iface:
            self.setup()
        self.n = rng.choice([1, 1, 2, 3, 4])
        self.wr, self.nm = names(rng, self.n)
        self.excl = [s for s in range(1, self.n) if r() < .5]
        self.rules, self.inits, self.asserts = [], [], set()
        if self.mode == "look":
            self.xs, self.ys = rng.choice([(b"ab", b"c "), (b"ab", b"cd"), (b"a", b"b\n"), (b"abc", b"\n "), (b"0123", b".a")])
            self.ab = self.xs + self.ys
        else:
            self.ab = rng.choice([b"ab", b"abc", b"abcd", b"aAbB", b"ab\n", b"a b", b"ab/", b"a<%b", b"a\n\t b"])
        self.g = LexGen(rng, alphabet=self.ab, icase=self.icase, dotall=self.dotall, freespace=self.free, wide=rng.choice([0, 0, .05, .1]) if self.mode != "look" else 0, lits=rng.choice([.2, .4]))
        if self.mode != "look" and r() < .15:
            self.g.utf8 = .15
            if r() < .6:
                self.g.unicode = True
                self.opts.append("unicode")
        self.lines, self.uses, self.first = [], [], -1
        defs = []
        if self.mode in ("plain", "anchor", "neg"):
            for k in range(rng.choice([0, 0, 1, 2, 3])):
                cls = None
                if rng.random() < .3:
                    save, self.g.classes, self.g.macros = (self.g.classes, self.g.macros), [], []
                    x, cls = self.g.blist()
                    self.g.classes, self.g.macros = save
                    t = (self.g.node(op="leaf", set=cls), x)
                else:
                    t = part(self.g, rng, rng.choice([0, 1, 1]))
                name = rng.choice(["D%d", "D%d", "D%d", "d_%d", "_%d", "d\u00c3\u00a9%d", "\u00ce\u00b1%d"]) % k
                self.g.macros.append((name, t[0]))
                # an operand is a list of ASCII characters: \d \s \w are Unicode with the option unicode
                if cls and not (self.g.unicode and re.search(r"\\[dswDSW]|\[:", t[1])):
                    self.g.classes.append((name, cls))
                defs.append("%s%s%s" % (name, rng.choice([" ", "\t", "   "]), t[1]))
        self.initcode([], True)
        budget = [rng.choice([1, 2, 3, 4, 6, 8])]
        self.body([], budget, 0)
        if not any(not x["eof"] for x in self.rules):
            self.rule([], "")
        cls = ["%class{", " LX_MEMBERS"] + ([" virtual int %s() { return lx_wrap(); }" % ("yywrap" if self.flex else "wrap")] if self.wrap else []) + \
              ([" virtual void LexerError(const char *s) { throw std::runtime_error(s); }"] if self.flex else []) + ["}", "%init{", " lg = NULL;", "}"]
        if iface:
            cls = self.classes()
        st, k = [], 1
        while k < self.n:
            e = k + 1
            while e < self.n and (e in self.excl) == (k in self.excl) and r() < .5:
                e += 1
            st.append("%" + rng.choice(["x", "x", "xstate", "X", "xs"] if k in self.excl else ["s", "s", "state", "S", "st"]) + rng.choice([" ", "\t", "  "]) + rng.choice([" ", "\t"]).join(rng.choice([self.wr[i], self.nm[i]]) for i in range(k, e)))
            k = e
        self.args, head = self.options(self.opts)
        self.files = {}
        # blocks of code and comments: what they declare is used by the first rule
        self.sect3 = ""
        blocks = []
        if r() < .3:
            blocks.append(rng.choice(["%%{\n static const int c1_%d = 1; // %%%% } {\n%%}", "  static const int c1_%d = 1;", "%%{\nenum { c1_%d = 1 }; /* }\n%%option */\n%%}"]) % i if not self.free else "%%{\nstatic const int c1_%d = 1; // %%%% { }\n%%}" % i)
            self.uses.append("c1_%d" % i)
        if r() < .2:
            blocks.append(rng.choice(["%%top{\n static const int c2_%d = 2;\n}", "%%top {\n\n#define c2_%d 2\n}", "%%top{\nstatic const char c2_%d[] = \"{\";\n}"]) % i)
            self.uses.append("c2_%d" % i)
        if r() < .3:
            blocks.append(rng.choice(["// comment", "/* comment */", "/* a\n %x comment\n*/", "", "// it's", "/* \" */"]))
        if r() < .2:
            blocks.append("%%{\n int c3_%d();\n%%}" % i)
            self.uses.append("c3_%d()" % i)
            self.sect3 = "int c3_%d() { return '%%'; }\n" % i
        for x in blocks:
            # not between options that change how the rest is read
            st.insert(rng.randrange(len(st) + 1), x)
        body = ["\n".join(cls)] + st + defs
        if r() < .15:
            k = rng.randrange(len(body) + 1)
            name = rng.choice(["i%d.l", '"i%d.l"', '"inc %d"'] ) % i
            self.files[name.strip('"')] = "\n".join(body[:k]) + rng.choice(["", "\n", "\n\n"])
            body = [rng.choice(["%include ", "%inc ", "%i "]) + name] + body[k:]
        self.lines[self.first] = self.lines[self.first].replace("@USES@", "".join("(void)%s; " % u for u in self.uses))
        self.text = "\n".join(head + body + ["%%"] + self.lines + ["%%", self.sect3])
        if r() < .1:
            self.text = self.text.replace("\n", "\r\n")

    SHORT = {"flex": "+", "find": "S", "nodefault": "s", "case-insensitive": "i", "dotall": "a", "freespace": "x", "full": "f", "fast": "F", "interactive": "I", "batch": "B",
             "debug": "d", "perf-report": "p", "verbose": "v", "noline": "L", "unicode": "u", "nowarn": "w", "yy": "y"}

    def options(self, opts):
        """the options as arguments and as lines of the specification"""
        rng = self.rng
        args, head, run, short = [], [], [], ""
        inargs = rng.random() < .35
        style = rng.random()
        for o in opts:
            name, _, val = o.partition("=")
            if inargs and rng.random() < .6:
                if o in self.SHORT and rng.random() < .6:
                    if rng.random() < .5:
                        short += self.SHORT[o]
                    else:
                        args.append("-" + self.SHORT[o])
                elif name == "tabs" and rng.random() < .6:
                    args += rng.choice([["-T" + val], ["-T=" + val], ["-T", val], [("-" + short) + "T" + val]])
                    if args[-1].startswith("-" + short + "T"):
                        short = ""
                else:
                    args.append("--" + (name.replace("-", "_") if rng.random() < .2 else name) + ("=" + val.strip('"') if val else ""))
                continue
            if rng.random() < .15:
                name = name.replace("-", "_")
            t = name + (rng.choice(["=", "=", " = ", "= ", "\t="]) + (val if val[:1] == '"' or rng.random() < .7 else '"%s"' % val) if val else "")
            if style < .6:
                run.append(t)
            elif rng.random() < .5:
                head.append("%" + rng.choice(["option", "o", "opt", "OPTION", "Option", "options"[:6]]) + " " + t)
            else:
                head.append("%" + t)
        if run:
            head.append("%option " + rng.choice([" ", "  ", "\t"]).join(run))
        if short:
            args.append("-" + short)
        return args, head

    # -- code
    def code(self, o):
        return code(o, self.flex, self.nm)

    def wrapcode(self, s):
        rng = self.rng
        noise = rng.choice(NOISE) + " " if rng.random() < .15 else ""
        r = rng.random()
        if self.free:
            return "{ " + noise + s + " }" if r < .8 else "{\n" + noise + s + "\n}"
        if r < .06:
            # several lines without braces, all indented
            return "\n   ".join([noise.strip() if noise[:1] == "/" else ";"] + re.split(r"(?<=;) (?=lg->|lx_|echo|out\(\))", s)).replace("\n   \n", "\n")
        if r < .10:
            return "\n%{\n" + (noise if noise[:1] in "/" else "{ " + noise + "}") + "\n" + s + "\n%}"
        if r < .75:
            if rng.random() < .15:
                return "{ " + noise + "\n    " + s + "\n }"
            return "{ " + noise + s + " }"
        return s if "\n" not in noise else noise + s

    def initcode(self, pre, first=False):
        k = len(self.inits) + 1
        s = "lx_once(); " if first else ""
        if not first or self.rng.random() < .5:
            s += 'lg->val(this, "I", %d);' % k
            self.inits.append({"pre": pre, "id": k})
        if self.free or self.rng.random() < .5:
            self.lines += ["%{", "  " + s, "%}"]
        else:
            self.lines += ["  " + s]

    def prefix(self):
        rng = self.rng
        lev, items = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            neg = rng.random() < .25
            s = -1 if rng.random() < .2 else rng.randrange(self.n)
            lev.append(["-" if neg else "+", s])
            items.append(("^" if neg else "") + ("*" if s < 0 else rng.choice([self.wr, self.nm])[s]))
        return lev, "<" + ",".join(items) + ">"

    def body(self, pre, budget, depth):
        rng = self.rng
        while budget[0] > 0:
            r = rng.random()
            if r < .07:
                self.lines.append(rng.choice(["", "// comment", "/* comment } */", "/* two", "lines */"][:3]))
            if r < .22 and depth < 3 and self.n > 1:
                lev, t = self.prefix()
                self.lines.append(t + "{")
                if rng.random() < .3:
                    self.initcode(pre + [lev])
                sub = [rng.choice([1, 1, 2, 3])]
                budget[0] -= sub[0]
                self.body(pre + [lev], sub, depth + 1)
                self.lines.append("}")
            else:
                p, t = pre, ""
                if self.n > 1 and rng.random() < .4:
                    lev, t = self.prefix()
                    p = pre + [lev]
                self.group(p, t)
                budget[0] -= 1

    def group(self, pre, t):
        """one rule, or several with the action |"""
        k = 1 if self.rng.random() < .8 else self.rng.choice([2, 2, 3])
        for j in range(k - 1):
            self.rule(pre, t, bar=True)
        if self.rng.random() < .12:
            self.rule(pre, t, eof=True)
        else:
            self.rule(pre, t)

    def regex(self):
        g, rng = self.g, self.rng
        look, neg = [], False
        mode = self.mode
        if mode == "look":
            g.ab = self.xs
            if rng.random() < .6:
                x = within(g, rng, rng.choice([0, 1, 1, 2]), bytes(b for lo, hi in g.fold([[c, c] for c in self.xs]) for b in range(lo, hi + 1)))
                c = rng.choice(self.ys)
                y = (g.node(op="leaf", set=g.fold([[c, c]])), g.char_text(c)) if rng.random() < .5 else \
                    (g.node(op="leaf", set=[[c, c] for c in sorted(self.ys)]), "[" + "".join(g.char_text(c, True) for c in sorted(self.ys)) + "]")
                if self.icase and any(chr(c).isalpha() for c in self.ys):
                    g.nodes[y[0] - 1]["set"] = g.fold(g.nodes[y[0] - 1]["set"])
                yk, yt = [y[0]], y[1]
                if rng.random() < .5:
                    g.ab = self.ab
                    z = part(g, rng, rng.choice([0, 1]))
                    yk.append(z[0])
                    yt += z[1]
                yid = g.node(op="cat", kids=yk) if len(yk) > 1 else yk[0]
                rid = g.node(op="cat", kids=[x[0], yid])
                return rid, x[1] + rng.choice(["/" + yt, "(?=" + yt + ")"]), [x[0], yid], False, False
            g.ab = self.ab
        if mode == "plain" and not g.utf8 and not any(x["lazy"] for x in self.rules) and rng.random() < .08:
            save, g.classes, g.macros = (g.classes, g.macros), [], []
            rid, s = c_lazy.lazy_alt(g, 1)
            g.classes, g.macros = save
            return rid, s, [], False, True
        t = part(g, rng, rng.choice([0, 1, 1, 2, 2]))
        rid, s = t[0], t[1]
        if mode == "anchor" and rng.random() < .5:
            if rng.random() < .5:
                k, a = ("^", "bol") if rng.random() < .7 else ("\\A", "bob")
                rid, s = g.node(op="cat", kids=[g.node(op="assert", kind=a), rid]), k + s
            else:
                k, a = ("$", "eol") if rng.random() < .7 else ("\\z", "eob")
                rid, s = g.node(op="cat", kids=[rid, g.node(op="assert", kind=a)]), s + k
            self.asserts.add(a)
        elif mode == "neg" and rng.random() < .35:
            neg = True
            s = "(?^" + s + ")"
        return rid, s, look, neg, False

    def rule(self, pre, t, bar=False, eof=False):
        rng = self.rng
        rid, s, look, neg, lazy = (0, "<<EOF>>", [], False, False) if eof else self.regex()
        i = len(self.rules) + 1
        act = [] if bar else gen_ops(rng, self.n, self.find, self.ab, eof)
        self.rules.append({"pre": pre, "eof": eof, "root": rid, "look": look, "neg": neg, "bar": bar, "act": act, "lazy": lazy})
        if bar:
            c = "|"
        else:
            if self.first < 0:
                self.first = len(self.lines)
            c = self.wrapcode(("@USES@" if self.first == len(self.lines) else "") + 'lg->rule(this, "%s", %d); ' % ("E" if eof else "R", i) + " ".join(self.code(o) for o in act))
        sep = rng.choice([" ", "    ", "\t"])
        self.lines.append(t + s + sep + c)

    def model(self):
        # with debug, unmatched input is skipped
        self.quiet = self.nodef and not self.flex and "debug" in self.opts
        return {"n": self.n, "excl": self.excl, "rules": self.rules, "inits": self.inits, "find": self.find, "nodef": self.nodef and not self.quiet, "quiet": self.quiet, "nodes": self.g.nodes,
                "asserts": sorted(self.asserts), "tab": self.tab, "tie": bool(self.asserts)}

    def cpp(self):
        i = self.id
        return 'static std::string lx_run_%d(Lx& lx) { return lx_drive<n%d::L%d>(lx, &n%d::L%d::%s); }\nstatic LxReg lx_reg_%d(%d, lx_run_%d);\n' % (
            i, i, i, i, i, "yylex" if self.flex else "lex", i, i, i)


def generate(tool, wd, s):
    f = os.path.join(wd, "l%d.l" % s.id)
    for k, v in list(s.files.items()) + [("l%d.l" % s.id, s.text)]:
        with open(os.path.join(wd, k), "w", encoding="latin1", newline="") as fh:
            fh.write(v)
    p = subprocess.run([tool] + s.args + ["-o", os.path.join(wd, "l%d.cpp" % s.id), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=wd)
    return p.returncode, p.stdout.decode("latin1")


def build_specs(rep, wd, specs, variant="std", per=10):
    """generate and compile the scanners; returns the executable and the specifications that are usable"""
    tool = C.build_tool()
    objs = C.build_lib(variant)
    ok = []

    def gen(s):
        return generate(tool, wd, s)
    for s, (rc, out) in zip(specs, C.pmap(gen, specs)):
        if rc or not os.path.exists(os.path.join(wd, "l%d.cpp" % s.id)):
            rep.violation("gen:%s" % s.text, "reflex fails (%d) on a valid specification: %s\n%s" % (rc, out[-400:], s.text), {"spec": s.text})
        else:
            ok.append(s)
    units = []
    for fl in (False, True):
        part = [s for s in ok if s.flex == fl]
        units += [part[k:k + per] for k in range(0, len(part), per)]

    def undef(s):
        t = open(os.path.join(wd, "l%d.cpp" % s.id), encoding="latin1").read()
        return "".join("#undef %s\n" % m for m in re.findall(r"^#define (\w+)", t, re.M) if m.startswith("REFLEX") or m in ("YY_NUM_RULES",))

    def comp(kv):
        k, part = kv
        src = '#include "lexdrv.h"\n'
        for s in part:
            src += '#include "l%d.cpp"\n' % s.id + undef(s) + s.cpp()
        f = os.path.join(wd, "u%d.cpp" % k)
        open(f, "w").write(src)
        p = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-c", "-I" + os.path.join(C.REPO, "include"), "-I" + C.HARN, f, "-o", os.path.join(wd, "u%d.o" % k)] + [x for x in C.VARIANTS[variant] if x.startswith(("-D", "-m", "-fs", "-fno"))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode("latin1")
    good, uo = [], []
    res = C.pmap(comp, list(enumerate(units)))
    for k, (rc, out) in enumerate(res):
        if rc == 0:
            good += units[k]
            uo.append(os.path.join(wd, "u%d.o" % k))
            continue
        # one scanner at a time
        for s in units[k]:
            kk = 100000 + s.id
            rc, out = comp((kk, [s]))
            if rc == 0:
                good.append(s)
                uo.append(os.path.join(wd, "u%d.o" % kk))
            else:
                rep.violation("compile:%s" % s.text, "generated scanner does not compile: %s\n%s" % (out[:600], s.text), {"spec": s.text})
    exe = os.path.join(wd, "lexers")
    p = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-I" + os.path.join(C.REPO, "include"), "-I" + C.HARN, os.path.join(C.HARN, "lexmain.cpp")] + uo + objs + ["-o", exe] + [x for x in C.VARIANTS[variant] if x.startswith("-fs")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise C.CheckError("link failed: %s" % p.stdout.decode("latin1")[-2000:])
    return exe, good


class LexSession:
    __slots__ = ("spec", "J", "parts", "again", "fuel", "buf", "ev", "inp")

    def __init__(self, spec, rng):
        self.spec = spec
        roots = [r["root"] for r in spec.rules if r["root"]] or [1]
        noise = b" \n" if rng.random() < .5 else spec.ab

        def text(k, m):
            return sess.text(rng, spec.g.nodes, roots, spec.ab, k, noise=noise, pnoise=.15, maxlen=m)
        main = text(rng.choice([1, 2, 4, 8, 12]), rng.choice([6, 15, 40]))
        # inputs: 1 the main input, 2 and 3 to open, 4.. to restart with
        self.J = [main, text(rng.choice([0, 1, 2]), 8), text(rng.choice([0, 1, 3]), 8)]
        self.again = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            self.J.append(text(rng.choice([0, 1, 4]), 20))
            self.again.append(len(self.J) - 1)
        self.parts = [0]
        if spec.wrap and len(main) > 1 and rng.random() < .7:
            cuts = sorted(rng.sample(range(1, len(main)), min(len(main) - 1, rng.choice([1, 1, 2]))))
            self.parts = []
            for a, b in zip([0] + cuts, cuts + [len(main)]):
                self.J.append(main[a:b])
                self.parts.append(len(self.J) - 1)
        self.fuel = rng.choice([0, 5, 12])
        self.buf = rng.choice([0, 0, 1, 2, 3])
        self.ev = None

    def line(self, i):
        return "%d\t%d\t%s\t%s\t%d\t%d\t%s\n" % (i, self.spec.id, ",".join(map(str, self.parts)), ",".join(map(str, self.again)), self.fuel, self.buf, ",".join(x.hex() for x in self.J))

    def describe(self):
        return {"specification": self.spec.text, "arguments": self.spec.args, "files": self.spec.files, "inputs": [x.decode("latin1") for x in self.J], "main": self.parts, "restart": self.again, "fuel": self.fuel, "block": self.buf}


def execute(exe, ss, n=C.NCPU):
    def run(part):
        bad, todo = [], list(part)
        while todo:
            try:
                p = subprocess.run([exe], input="".join(s.line(i) for i, s in enumerate(todo)).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30 + len(todo) * .05)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as ex:
                rc, out, err = -99, ex.stdout or b"", b"timeout"
            k = 0
            for l in out.split(b"\n"):
                if not l.endswith(b"}"):
                    continue
                try:
                    r = json.loads(l)
                except ValueError:
                    break
                todo[r["id"]].ev = r["ev"]
                k = r["id"] + 1
            if k >= len(todo):
                break
            bad.append((todo[k], "exit code %s %s" % (rc, err[-800:].decode("latin1"))))
            todo[k].ev = None
            todo = todo[k + 1:] if len(bad) < 8 else []
        return bad
    res = []
    for b in C.pmap(run, [ss[i::n] for i in range(n)]):
        res += b
    return res


def validate(wd, ss, tag):
    ss = [s for s in ss if s.ev is not None]
    ss.sort(key=lambda s: -len(s.ev) * sum(map(len, s.J)))
    n = min(C.NCPU, max(1, len(ss)))

    def run(ip):
        i, part = ip
        f = os.path.join(wd, "lex-%s-%d.ndjson" % (tag, i))
        with open(f, "w") as fh:
            for s in part:
                fh.write(json.dumps({"X": s.spec.model(), "J": [list(x) for x in s.J], "main": 1, "fuel": s.fuel, "ev": s.ev}) + "\n")
        r = C.tlc("LexerTrace", sess.CFG, wd, env={"TRACE": f}, workers=1, timeout=820, mem="3g")
        if not r.ok:
            raise C.CheckError("TLC LexerTrace failed: %s" % r.out[-3000:])
        bad = []
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),(.*?)(?=\n<<|\n[A-Z]|$)', r.out, re.S):
            bad.append((part[int(m.group(1)) - 1], int(m.group(2)), re.sub(r"\s+", " ", m.group(3))[:700]))
        return bad, r.distinct, r.generated
    bad, st, tr = [], 0, 0
    for b, s, t in C.pmap(run, [(i, ss[i::n]) for i in range(n)]):
        bad += b
        st += s
        tr += t
    return bad, st, tr, sum(len(s.ev) for s in ss)


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 49979687 + 15)
    nspec = int(os.environ.get("NN", 1000 if tier == "quick" else 9000))
    tot = [0, 0, 0, 0, 0]
    smp = []
    for b in range(0, nspec, 1500):
        specs = [Spec(rng, b + i) for i in range(min(1500, nspec - b))]
        exe, good = build_specs(rep, wd, specs)
        ss = [LexSession(s, rng) for s in good for _ in range(30)]
        for s, t in execute(exe, ss):
            if execute(exe, [s], 1):
                rep.violation("crash:%s" % s.spec.text, "crash in %s: %s" % (json.dumps(s.describe()), t), s.describe())
        bad, st, tr, ne = validate(wd, ss, "q")
        seen = set()
        for s, l, e in bad:
            if s.spec.id in seen:
                continue
            seen.add(s.spec.id)
            rep.violation("run:%s:%s" % (s.spec.text, s.J), "%s\nevent %d %s; specification: %s" % (s.spec.text + json.dumps({k: v for k, v in s.describe().items() if k != "specification"}), l, json.dumps(s.ev[l - 1]), e), s.describe())
        for k, v in enumerate((st, tr, ne, sum(1 for s in ss if s.ev is not None), len(good))):
            tot[k] += v
        smp = smp or [s.describe() for s in ss[:120:30]]
        for f in os.listdir(wd):
            os.unlink(os.path.join(wd, f))
    rep.add(states=tot[0], transitions=tot[1], events=tot[2], traces_validated_against_impl=tot[3], scanners=tot[4], samples=smp)
    return rep
