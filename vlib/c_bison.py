"""R23: interfaces of generated scanners: Bison, reentrant, classes, parameters, token types, separate files (Lexer.tla)."""
import json, os, random, re, subprocess
from . import common as C, sess, c_lexer
from .c_lexer import CODE, code

MODES = ["plain", "class", "bison", "locations", "bridge", "bridgeloc", "reentrant", "cc", "ccloc", "complete", "completeloc", "yy"]
# more ways to write the operations of Flex scanners
FLEXNR = {"less": ["yyless(%d)"], "unput": ["yyunput('\\x%02x')"], "put": ["yyoutput('\\x%02x')"]}
FLEXRE = {"unput": ["yyunput('\\x%02x', yyscanner)"], "put": ["yyoutput('\\x%02x', yyscanner)"]}


class Spec(c_lexer.Spec):
    def __init__(self, rng, i, mode=None):
        self.mode_ = mode
        super().__init__(rng, i, iface=True)

    def setup(self):
        rng = self.rng
        r = rng.random
        i = self.id
        self.im = m = self.mode_ or rng.choice(MODES)
        if m == "yy":
            self.flex = True
            if "flex" not in self.opts:
                self.opts.append("flex")
            self.wrap = False
        self.ns = r() < .3
        self.opts = [o for o in self.opts if not o.startswith(("namespace=", "lexer="))]
        if self.ns:
            self.opts.append("namespace=" + rng.choice(["n%d" % i, "n%d.m" % i]))
        self.scope = "" if not self.ns else self.opts[-1].split("=")[1].replace(".", "::") + "::"
        self.pref_ = "yy" if self.flex else ""
        if r() < .2:
            self.pref_ = "px"
            self.opts.append("prefix=px")
        if r() < .6:
            self.lexer = "L%d" % i
            self.opts.append("lexer=" + self.lexer)
        else:
            self.lexer = self.pref_ + ("FlexLexer" if self.flex else "Lexer")
        self.lex = self.pref_ + "lex"
        if r() < .15:
            self.lex = "lexfun"
            self.opts.append("lex=lexfun")
        self.opts += {"plain": [], "class": [], "bison": ["bison"], "locations": ["bison-locations"], "bridge": ["bison-bridge"], "bridgeloc": ["bison-bridge", "bison-locations"],
                      "reentrant": ["reentrant"], "cc": ["bison-cc"], "ccloc": ["bison-cc", "bison-locations"], "complete": ["bison-complete"],
                      "completeloc": ["bison-complete", "bison-locations"], "yy": ["yy"]}[m]
        if m == "bison" and r() < .3:
            self.opts.append("bison-locations")
            self.im = m = "locations"
        self.user = m == "class" or m not in ("yy",) and r() < .15
        self.cls = self.lexer
        if self.user:
            self.cls = "My%d" % i
            self.opts.append(("yyclass=" if self.flex else "class=") + self.cls)
        self.cns, self.parser = "yy", "parser"
        if m.startswith(("cc", "complete")):
            if r() < .4:
                self.cns = "zz"
                self.opts.append("bison-cc-namespace=zz")
            if r() < .4:
                self.parser = "Pa"
                self.opts.append("bison-cc-parser=Pa")
        self.param = r() < .2
        if self.param:
            k, x = rng.choice([("k1", "px"), ("k_1", "_px"), ("the_key", "p_x_")])
            self.pars = rng.choice(["int %s, Lx *%s", "int %s,Lx* %s", "int  %s , Lx * %s", "const int& %s, Lx *const %s"]) % (k, x)
            self.chk = "if (%s != 42 || %s != lg) " % (k, x)
            self.opts.append('params="%s"' % self.pars)
        self.token = m not in ("complete", "completeloc") and r() < .15
        if self.token:
            self.opts.append("token-type=Tok")
        self.glob = m in ("bison", "locations", "yy")
        self.yywrap = False
        if self.flex and m in ("bison", "yy") and r() < .5:
            self.opts.append("noyywrap")
        self.late = m == "completeloc"
        # a header file cannot refer to the class of the user
        self.split = r() < .25 and not (self.user and (self.glob or m in ("reentrant", "bridge", "bridgeloc")))
        if self.split:
            self.opts.append("header-file=l%d.h" % i)
            if self.how:
                self.opts.append("tables-file=l%dt.cpp" % i)
        rng.shuffle(self.opts)

    def stype(self):
        m = self.im
        return "%s::%s::semantic_type" % (self.cns, self.parser) if m.startswith("cc") else "YYSTYPE"

    def ltype(self):
        return "%s::location" % self.cns if self.im.startswith(("cc", "complete")) else "YYLTYPE"

    def sig(self, names):
        """parameters of the scanner function"""
        m = self.im
        p = []
        if m in ("locations", "bridge", "bridgeloc", "cc", "ccloc"):
            p.append(self.stype() + "& yylval" if names else "v")
        if m in ("locations", "bridgeloc", "ccloc"):
            p.append(self.ltype() + "& yylloc" if names else "l")
        if self.param:
            p.append(self.pars if names else "42, &lx")
        return ", ".join(p)

    def rettype(self):
        return "Tok" if self.token else "%s::%s::symbol_type" % (self.cns, self.parser) if self.im.startswith("complete") else "int"

    def classes(self):
        m = self.im
        top = ['#include "lexdrv.h"']
        if m.startswith(("cc", "complete")):
            top += ["namespace %s { struct position { std::string *filename; unsigned line, column; }; struct location { position begin, end; };" % self.cns,
                    " struct %s { struct semantic_type { int v; }; struct symbol_type { int k, v; location l; symbol_type(int i = 0) : k(i), v(i + 1000) { } symbol_type(int i, const location& x) : k(i), v(i + 1000), l(x) { } }; }; }" % self.parser]
        else:
            top += ["struct YYSTYPE { int v; };", "struct YYLTYPE { int first_line, first_column, last_line, last_column; };"]
        if self.token:
            top.append("struct Tok { int k; Tok(int i = 0) : k(i) { } };")
        if m in ("bison", "yy"):
            top.append("extern YYSTYPE yylval;")
        chk = self.chk + "return %s; " % (self.rettype() + "(55)") if self.param else ""
        if m.startswith("complete"):
            ret = "return %s(n%s)" % (self.rettype(), ", location()" if self.late else "")
        else:
            ret = ("yylval.v = (n) + 1000; " if m not in ("plain", "class", "reentrant") else "") + "return %s" % ("Tok(n)" if self.token else "n")
        top.append("#define LXR(n) do { %s%s; } while (0)" % (chk, ret))
        mem = [" LX_MEMBERS"] + ([" virtual int %s() { return lx_wrap(); }" % ("yywrap" if self.flex else "wrap")] if self.wrap else []) + \
              ([" virtual void LexerError(const char *s) { throw std::runtime_error(s); }"] if self.flex else [])
        out = ["%top{"] + top + ["}"]
        if self.user:
            io = "std::ostream *os = NULL" if self.flex else "std::ostream& os = std::cout"
            body = ["class %s : public %s%s {" % (self.cls, self.scope, self.lexer), " public:",
                    " %s(const reflex::Input& input = reflex::Input(), %s) : %s(input, os), lg(NULL) { }" % (self.cls, io, self.lexer)] + mem + \
                   [" using %s::%s;" % (self.lexer, self.lex) if m in ("cc", "ccloc") else "", " virtual %s %s(%s);" % (self.rettype(), self.lex, self.sig(True)), "};"]
            if self.ns:
                nn = self.scope[:-2].split("::")
                body = ["namespace %s {" % x for x in nn] + body + ["}" for x in nn]
            out += ["%{"] + body + ["%}"]
        else:
            out += ["%class{"] + mem + ["}", "%init{", " lg = NULL;", "}"]
        return out

    def code(self, o):
        k = o["o"]
        if k == "return":
            return "LXR(%d);" % o["n"]
        if k == "quit":
            return "if (lg->depth <= 1) LXR(0);"
        if self.flex:
            if self.im == "reentrant" and k in ("push", "pop"):
                return "yy_push_state(%s, yyscanner);" % self.nm[o["n"]] if k == "push" else "yy_pop_state(yyscanner);"
            if self.rng.random() < .3:
                w = (FLEXRE if self.im == "reentrant" else FLEXNR).get(k)
                if w:
                    return ("if (lg->burn()) " if k != "put" else "") + w[0] % o["n"] + ";"
                if k == "text" and self.pref_ == "yy":
                    return "lg->val(this, \"t\", 0, std::string(yytext, yyleng));"
        c = code(o, self.flex, self.nm)
        # with option prefix there is no yyleng
        return c if self.pref_ == "yy" else c.replace("yyleng", "YYLeng()")

    def driver(self):
        m, fl = self.im, self.flex
        T = self.scope + self.cls
        pre = self.pref_ or "yy"
        s = ""
        if self.glob and fl:
            s += "#undef %stext\n#undef %sleng\n#undef %slineno\n" % (pre, pre, pre)
        if m == "yy":
            s += "#undef yyin\n"
        if not self.glob and m in ("reentrant", "bridge", "bridgeloc"):
            for x in ("text", "leng", "lineno", "set_lineno"):
                s += "#undef yyget_%s\n#undef yyset_%s\n" % (x, x)
        if m in ("bison", "yy"):
            s += "YYSTYPE yylval;\n"
        if fl and ("bison" in self.opts or m == "yy") and "noyywrap" not in self.opts:
            s += "int yywrap() { return 1; }\n"
        s += 'extern "C" std::string lx_run(Lx& lx)\n{\n  std::vector<FILE*> fs; std::vector<std::istream*> ss;\n'
        inp = "reflex::Input(lx.in[lx.parts[0]].data(), lx.in[lx.parts[0]].size())"
        fun = (pre + "lex" if fl else "yylex") if self.glob else "yylex"
        a = []
        if self.glob:
            if m == "yy":
                s += "  typedef %s T; YY_SCANNER.~T(); new (&YY_SCANNER) T(); T& l = YY_SCANNER; fs.push_back(lx_file(lx.in[lx.parts[0]])); %sin = fs.back();\n" % (T, pre)
            else:
                s += "  typedef %s T; YY_SCANNER.~T(); new (&YY_SCANNER) T(%s); T& l = YY_SCANNER;\n" % (T, inp)
            if m == "locations":
                a = ["&v", "&o"]
        elif m in ("reentrant", "bridge", "bridgeloc"):
            s += "  yyscan_t sc; yylex_init(&sc); yyscanner_t& l = *static_cast<yyscanner_t*>(sc); l.in(%s);\n" % inp
            a = {"reentrant": ["sc"], "bridge": ["&v", "sc"], "bridgeloc": ["&v", "&o", "sc"]}[m]
        else:
            s += "  %s l(%s);\n" % (T, inp)
            fun = "l." + self.lex
            # by reference or by pointer
            ref = self.rng.choice(["", "&"]) if m.startswith("cc") else ""
            a = [ref + "v"] if m in ("cc", "ccloc") else []
            if m == "ccloc":
                a.append(ref + "o")
        if self.param:
            a += ["42", "&lx"]
        s += "  l.out(lx.out); l.lg = &lx;\n"
        s += "  std::string err = lx_drive2(lx, l, [&](LxCall& c) {\n"
        val = m not in ("plain", "class", "reentrant", "complete", "completeloc")
        if val and m not in ("bison", "yy"):
            s += "    %s v; v.v = 0;\n" % self.stype()
        if m in ("locations", "bridgeloc", "ccloc"):
            s += "    %s o = %s();\n" % (self.ltype(), self.ltype())
        s += "    %s t = %s(%s);\n" % (self.rettype(), fun, ", ".join(a))
        s += "    c.k = %s;\n" % ("t.k" if self.token or m.startswith("complete") else "t")
        if val:
            s += "    if (c.k != 0 && %s != c.k + 1000) c.k = -777;\n" % ("yylval.v" if m in ("bison", "yy") else "v.v")
        if m.startswith("complete"):
            s += "    if (t.v != c.k + 1000) c.k = -777;\n"
        if m in ("locations", "bridgeloc", "ccloc", "completeloc"):
            o = "t.l" if m == "completeloc" else "o"
            f = ["begin.line", "begin.column", "end.line", "end.column"] if m.startswith(("cc", "complete")) else ["first_line", "first_column", "last_line", "last_column"]
            s += "    { std::ostringstream x; x << %s; c.loc = x.str(); }\n" % ' << "," << '.join("%s.%s" % (o, y) for y in f)
        if self.glob and fl:
            s += "    if (c.k != 0) { c.has = true; c.text.assign(%stext, %sleng); if (%stext[%sleng] != 0) c.k = -778; c.line = %slineno; }\n" % ((pre,) * 5)
        elif fl and m in ("reentrant", "bridge", "bridgeloc"):
            s += "    if (c.k != 0) { c.has = true; c.text.assign(%sget_text(sc), %sget_leng(sc)); c.line = %sget_lineno(sc); }\n" % ((pre,) * 3)
        else:
            s += "    if (c.k != 0) { c.has = true; c.text.assign(l.matcher().begin(), l.matcher().size()); c.line = (long)l.lineno(); }\n"
        src = "fs.push_back(lx_file(s)); %sin = fs.back();" % pre if m == "yy" else self.rng.choice(
            ["l.in(reflex::Input(s.data(), s.size()));", "l.in(s.data(), s.size());", "l.in(s);", "fs.push_back(lx_file(s)); l.in(fs.back());",
             "fs.push_back(lx_file(s)); l.in() = fs.back(); l.matcher().reset();", "ss.push_back(new std::istringstream(s)); l.in(ss.back());"])
        s += "  }, [&](const std::string& s) { %s });\n" % src
        if m in ("reentrant", "bridge", "bridgeloc"):
            s += "  yylex_destroy(sc);\n"
        s += "  for (FILE *f : fs) fclose(f);\n  for (std::istream *i : ss) delete i;\n"
        return s + "  return err;\n}\n"

    def model(self):
        d = super().model()
        d["late"] = self.late
        return d


def libso(wd):
    objs = C.build_lib("pic")
    so = os.path.join(wd, "libx.so")
    p = subprocess.run(["g++", "-shared", "-o", so] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise C.CheckError("link failed: " + p.stdout.decode("latin1")[-2000:])
    exe = os.path.join(wd, "lexers.bin")
    p = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-I" + os.path.join(C.REPO, "include"), "-I" + C.HARN, os.path.join(C.HARN, "lexso.cpp"), so, "-Wl,-rpath," + wd, "-ldl", "-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise C.CheckError("link failed: " + p.stdout.decode("latin1")[-2000:])
    # the driver takes the directory of the libraries
    sh = os.path.join(wd, "lexers")
    with open(sh, "w") as f:
        f.write("#!/bin/sh\nexec %s %s\n" % (exe, wd))
    os.chmod(sh, 0o755)
    return so, sh


def build_specs(rep, wd, specs):
    tool = C.build_tool()
    so, exe = libso(wd)

    def one(s):
        b = os.path.join(wd, "l%d" % s.id)
        rc, out = c_lexer.generate(tool, wd, s)
        if rc or not os.path.exists(b + ".cpp"):
            return "reflex fails", out
        d = "// driver\n" + s.driver()
        open(b + "d.cpp", "w").write('#include "l%d.cpp"\n' % s.id + d)
        src = [b + "d.cpp"]
        if s.split:
            # the header is for users of the scanner in other files
            open(b + "h.cpp", "w").write('#include "l%d.h"\n%s *lx_make() { return new %s; }\n' % (s.id, s.scope + (s.cls if not s.user else s.lexer), s.scope + s.cls)
                                         if not s.user else '#include "l%d.h"\n' % s.id)
            src.append(b + "h.cpp")
            if s.how:
                src.append(b + "t.cpp")
        p = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-fPIC", "-fno-gnu-unique", "-shared", "-msse2", "-DHAVE_SSE2", "-I" + os.path.join(C.REPO, "include"), "-I" + C.HARN, "-I" + wd] + src +
                           [so, "-Wl,--no-undefined", "-o", b + ".so"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=wd)
        if p.returncode:
            return "does not compile", p.stdout.decode("latin1")
        for x in (".cpp", "d.cpp"):
            os.unlink(b + x)
        return None
    good = []
    for s, r in zip(specs, C.pmap(one, specs)):
        if r is None:
            good.append(s)
        else:
            e = re.findall(r"(?:error:|undefined reference).*", r[1]) or [r[1][-300:]]
            rep.violation("gen:%s:%s" % (s.im, s.text), "%s: %s [%s]\n%s" % (r[0], "; ".join(e[:3]), " ".join(s.opts), s.text), {"spec": s.text, "driver": s.driver()})
    return exe, good


class Session(c_lexer.LexSession):
    __slots__ = ()

    def __init__(self, spec, rng):
        super().__init__(spec, rng)
        if spec.im == "yy":
            # reading yyin: the program does not assign other inputs between calls
            self.fuel = 0


def run(prop, tier):
    rep = C.Report(prop, tier, "model_checking")
    wd = C.workdir(prop)
    rng = random.Random(C.SEED * 15485863 + 23)
    n = int(os.environ.get("NN", 240 if tier == "quick" else 2000))
    tot, smp = [0] * 5, []
    for b in range(0, n, 480):
        specs = [Spec(rng, b + i, MODES[i % len(MODES)]) for i in range(min(480, n - b))]
        exe, good = build_specs(rep, wd, specs)
        ss = [Session(s, rng) for s in good for _ in range(60)]
        for s, t in c_lexer.execute(exe, ss):
            if c_lexer.execute(exe, [s], 1):
                rep.violation("crash:%s" % s.spec.text, "crash in %s: %s" % (json.dumps(s.describe()), t), s.describe())
        bad, st, tr, ne = c_lexer.validate(wd, ss, "q")
        seen = set()
        for s, l, e in bad:
            if s.spec.id in seen:
                continue
            seen.add(s.spec.id)
            rep.violation("run:%s:%s" % (s.spec.text, s.J), "%s\nevent %d %s; specification: %s" % (s.spec.text + json.dumps({k: v for k, v in s.describe().items() if k != "specification"}), l, json.dumps(s.ev[l - 1]), e), s.describe())
        for k, v in enumerate((st, tr, ne, sum(1 for s in ss if s.ev is not None), len(good))):
            tot[k] += v
        smp = smp or [s.describe() for s in ss[:240:60]]
        for f in os.listdir(wd):
            p = os.path.join(wd, f)
            if os.path.isfile(p):
                os.unlink(p)
    rep.add(states=tot[0], transitions=tot[1], events=tot[2], traces_validated_against_impl=tot[3], scanners=tot[4], samples=smp)
    return rep
