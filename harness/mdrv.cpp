// Session driver: executes a scripted history of public reflex::Matcher calls and records one event per call.
// stdin, one session per line, tab separated:
//   id  regex(hex)  pattern-options  matcher-options  source  input(hex)  schedule(comma list)  ops(space list)
// source: c cstring+len | g scheduled get() | w scheduled get()+wrap() | p in-place buffer | B buffer() all
//   how: per pattern (comma list) a string of: t<id>/f<id> saved table/code, c copied, a assigned over another pattern, A reassigned from
//        its regex, v moved around in a vector; then ; and how the matcher came about: k copied, l cloned, = assigned over a used
//        matcher, p used before with another pattern, r reset after use with other options, s made with the regex
//   regex, pattern-options and input may be comma lists: Q<n> switches to pattern n, R<source><n> to input n
//         i interactive | n<k> buffer(k) | f FILE | s istream | C C-string
// stdout: one JSON line per session
#include <reflex/matcher.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "saved.h"
using reflex::Matcher;
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
static std::vector<std::string> split(const std::string& s, char d)
{
  std::vector<std::string> v; std::string t; std::istringstream is(s);
  while (std::getline(is, t, d)) v.push_back(t);
  return v;
}
static std::string bytes(const char *s, size_t n)
{
  std::string r = "[";
  for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
struct SchedMatcher : public Matcher {
  SchedMatcher(const reflex::Pattern& p, const char *opt) : Matcher(p, reflex::Input(), opt), off(0), turn(0), wraps(false) { }
  virtual size_t get(char *s, size_t n)
  {
    if (!active) return Matcher::get(s, n);
    size_t lim = seg.empty() ? data.size() : seg[std::min(cur_seg, seg.size() - 1)];
    size_t avail = lim - off;
    size_t k = sched.empty() ? n : sched[turn++ % sched.size()];
    if (k == 0) k = 1;
    if (k > n) k = n;
    if (k > avail) k = avail;
    memcpy(s, data.data() + off, k);
    off += k;
    return k;
  }
  virtual bool wrap()
  {
    if (!active || !wraps || cur_seg + 1 >= seg.size()) return false;
    ++cur_seg;
    return true;
  }
  std::string data;
  std::vector<size_t> sched;
  std::vector<size_t> seg;
  size_t cur_seg = 0, off, turn;
  bool active = false, wraps;
  FILE *file = NULL; std::istringstream is; std::vector<char> place;
  SchedMatcher(const SchedMatcher& m) : Matcher(m), off(0), turn(0), wraps(false) { }
  SchedMatcher(const std::string& p, const char *opt) : Matcher(p, reflex::Input(), opt), off(0), turn(0), wraps(false) { }
  ~SchedMatcher() { if (file) fclose(file); }
  void source(const std::string& srcs, const std::string& inp, const std::vector<size_t>& sch, bool first)
  {
    SchedMatcher& m = *this;
    char src = srcs.empty() ? 'c' : srcs[0];
    m.active = m.wraps = false; m.seg.clear(); m.cur_seg = 0; m.off = 0; m.turn = 0;
    switch (src)
    {
      case 'g': if (!first) m.input(reflex::Input()); m.active = true; m.data = inp; m.sched = sch; break;
      case 'w': if (!first) m.input(reflex::Input()); m.active = true; m.wraps = true; m.data = inp; m.sched = sch;
        { size_t at = 0; for (size_t i = 0; i < sch.size() && at < inp.size(); ++i) { at = std::min(inp.size(), at + sch[i]); m.seg.push_back(at); } if (m.seg.empty() || m.seg.back() < inp.size()) m.seg.push_back(inp.size()); }
        break;
      case 'p': { std::vector<char> v(inp.begin(), inp.end()); v.push_back(0); m.buffer(v.data(), v.size()); place.swap(v); } break;
      case 'C': m.input(inp.c_str()); break;
      case 'B': m.input(reflex::Input(inp.data(), inp.size())); m.buffer(); break;
      case 'i': m.input(reflex::Input(inp.data(), inp.size())); m.interactive(); break;
      case 'n': m.input(reflex::Input(inp.data(), inp.size())); m.buffer(strtoul(srcs.c_str() + 1, 0, 10)); break;
      case 'f': { FILE *f = tmpfile(); fwrite(inp.data(), 1, inp.size(), f); rewind(f); m.input(reflex::Input(f, reflex::Input::file_encoding::plain)); if (file) fclose(file); file = f; } break;
      case 's': is.clear(); is.str(inp); m.input(reflex::Input(is)); break;
      default: m.input(reflex::Input(inp.data(), inp.size())); break;
    }
  }
};
struct Rec : public reflex::AbstractMatcher::Handler {
  virtual void operator()(reflex::AbstractMatcher&, const char *buf, size_t len, size_t num)
  {
    if (num != out.size()) bad = true;
    out.append(buf, len);
  }
  std::string out; bool bad = false;
};
// the same match through another interface: an iterator of the operation instead of the operation itself
template<typename Op> static long long match(SchedMatcher& m, Op& op, reflex::AbstractMatcher::iterator& it, long how)
{
  switch (how)
  {
    case 1: { it = op.begin(); return it == op.end() ? 0 : (long long)it->accept(); }
    case 2: if (it == op.end()) it = op.begin(); else ++it; return it != op.end() ? (long long)(*it).accept() : 0;
    case 3: { reflex::AbstractMatcher::const_iterator c = op.cbegin(); return c != op.cend() ? (long long)c->accept() : 0; }
    case 4: if (it == op.end()) it = op.begin(); else { bool b = it++ == op.end(); if (b) return -8; } return it != op.end() ? (long long)static_cast<size_t>(*it) : 0;
    case 5: op(); return (long long)m.accept();
    default: return (long long)op();
  }
}
template<typename W> static std::string codes(const W& w)
{
  std::string r = "[";
  for (size_t i = 0; i < w.size(); ++i) { if (i) r += ","; r += std::to_string((long)w[i]); }
  return r + "]";
}
struct Ev {
  std::ostringstream o; bool first = true;
  void begin(const std::string& op) { o << (first ? "" : ",") << "{\"o\":\"" << op << "\""; first = false; }
  void f(const char *k, long long v) { o << ",\"" << k << "\":" << v; }
  void b(const char *k, const std::string& v) { o << ",\"" << k << "\":" << bytes(v.data(), v.size()); }
  void end() { o << "}"; }
};
static std::map<std::string, std::shared_ptr<reflex::Pattern> > cache;
static const reflex::Pattern& other(int i)
{
  static const reflex::Pattern o[3] = { reflex::Pattern("zz(a|b)+x|\\bq"), reflex::Pattern("abcdabca"), reflex::Pattern("^[ \\t]+\\i|\\j|a(?=b)|.", "m") };
  return o[i];
}
static void use(SchedMatcher& m)
{
  static const char text[] = "xx abcd\n  zzabx abcdabca\n zzax\n  abcdabcabcdabca q\n a\n   zabcda abcdabca\n";
  m.input(reflex::Input(text, sizeof(text) - 1));
  for (int i = 0; i < 3; ++i) m.find();
}
static std::shared_ptr<reflex::Pattern> remake(std::shared_ptr<reflex::Pattern> p, char how, const std::string& rex, const std::string& opts)
{
  std::shared_ptr<reflex::Pattern> q;
  switch (how)
  {
    case 'c': // in memory that is not zero
      {
        void *mem = ::operator new(sizeof(reflex::Pattern));
        memset(mem, 0x5a, sizeof(reflex::Pattern));
        q.reset(new (mem) reflex::Pattern(*p));
      }
      break;
    case 'a': q.reset(new reflex::Pattern("abcdabca|(?^x)|zz(?=z)", "m")); *q = *p; break;
    case 'b': q.reset(new reflex::Pattern("abcdabca")); *q = *p; break;
    case 'A': q.reset(new reflex::Pattern("abcdabca|(?^x)|zz(?=z)", "im")); q->assign(rex, "r;" + opts); break;
    case 'B': q.reset(new reflex::Pattern("abcdabca")); q->assign(rex, "r;" + opts); break;
    case 'v': { std::vector<reflex::Pattern> v; for (int i = 0; i < 3; ++i) v.push_back(*p); v.erase(v.begin()); q.reset(new reflex::Pattern(v[1])); } break;
    case '=': { reflex::Pattern& r = *p; r = *p; q = p; } break;
    default: q = p;
  }
  return q;
}
int main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> a = split(line, '\t');
    while (a.size() < 9) a.push_back("");
    std::vector<std::string> rexs = split(a[1], ','), popts = split(a[2], ','), inps = split(a[5], ','), hm = split(a[8], ';');
    std::vector<std::string> hows = split(hm.empty() ? "" : hm[0], ',');
    if (rexs.empty()) rexs.push_back("");
    if (inps.empty() || a[5].back() == ',') inps.push_back("");
    popts.resize(rexs.size()); hows.resize(rexs.size());
    for (std::string& t : inps) t = unhex(t);
    std::vector<std::shared_ptr<reflex::Pattern> > pats;
    int err = 0;
    for (size_t i = 0; i < rexs.size() && err == 0; ++i)
    {
      std::string rex = unhex(rexs[i]);
      std::shared_ptr<reflex::Pattern> pat;
      const char *h = hows[i].c_str();
      if (*h == 't' || *h == 'f')
      {
        char *e;
        pat.reset(Saved::all().at(strtol(h + 1, &e, 10))());
        h = e;
      }
      else
      {
        std::shared_ptr<reflex::Pattern>& c = cache[popts[i] + "\t" + rex];
        try { if (!c) c.reset(new reflex::Pattern(rex, "r;" + popts[i])); }
        catch (const reflex::regex_error& e) { err = e.code(); break; }
        pat = c;
      }
      for (; *h; ++h) pat = remake(pat, *h, rex, popts[i]);
      pats.push_back(pat);
    }
    if (err) { std::cout << "{\"id\":" << a[0] << ",\"err\":" << err << "}\n"; continue; }
    std::vector<size_t> sched;
    for (const std::string& t : split(a[6], ',')) sched.push_back(strtoul(t.c_str(), 0, 10));
    std::unique_ptr<SchedMatcher> mp;
    char mh = hm.size() > 1 && !hm[1].empty() ? hm[1][0] : 'd';
    const char *mo = a[3].c_str();
    switch (mh)
    {
      case 'k': { SchedMatcher o(*pats[0], mo); mp.reset(new SchedMatcher(o)); } break;
      case 'K': { SchedMatcher o(*pats[0], mo); use(o); mp.reset(new SchedMatcher(o)); } break;
      case '=': mp.reset(new SchedMatcher(other(0), "NT=2")); use(*mp); { SchedMatcher o(*pats[0], mo); use(o); static_cast<Matcher&>(*mp) = o; } break;
      case 'p': mp.reset(new SchedMatcher(other(a[0].size() % 3), mo)); use(*mp); mp->pattern(*pats[0]); break;
      case 'P': mp.reset(new SchedMatcher(other(1), mo)); use(*mp); mp->pattern(pats[0].get()); break;
      case 'r': mp.reset(new SchedMatcher(other(2), "ANT=2")); use(*mp); mp->pattern(*pats[0]); mp->reset(mo); break;
      case 's': mp.reset(new SchedMatcher(unhex(rexs[0]), mo)); break;
      case 'S': mp.reset(new SchedMatcher(other(1), mo)); use(*mp); mp->pattern(unhex(rexs[0])); break;
      default: mp.reset(new SchedMatcher(*pats[0], mo));
    }
    SchedMatcher& m = *mp;
    m.source(a[4], inps[0], sched, mh == 'd');
    Rec rec;
    Ev ev;
    reflex::AbstractMatcher::iterator its[3];
    for (const std::string& tok : split(a[7], ' '))
    {
      if (tok.empty()) continue;
      // '*': repeat until the result is zero, at most 300 times
      bool loop = tok.back() == '*';
      for (int again = 0; again < (loop ? 300 : 1); ++again)
      {
      char op = tok[0];
      bool pos = false;
      std::string arg = tok.substr(1);
      if (loop) arg.pop_back();
      if (!arg.empty() && arg.back() == '!') { pos = true; arg.pop_back(); }
      long n = arg.empty() || op == 'C' ? 0 : op == 'R' ? strtol(arg.c_str() + 1, 0, 10) : strtol(arg.c_str(), 0, 10);
      if (op == '=') n = m.accept() + arg.at(0) - '0';
      ev.begin(std::string(1, op));
      ev.f("a", n == 0xFFFFFFFFL ? 2000000001 : n == 0x7FFFFFFFL ? 2000000000 : n);
      long long r = 0;
      std::string x, xs;
      bool snap = false, txt = false;
      switch (op)
      {
        case 'S': r = match(m, m.scan, its[0], n); snap = txt = true; break;
        case 'F': r = match(m, m.find, its[1], n); snap = txt = true; break;
        case 'P': r = match(m, m.split, its[2], n); snap = txt = true; break;
        case 'a': // what the matcher says about the match, in its other ways
          switch (n)
          {
            case 0: x = m.str(); break;
            case 1: xs = codes(m.wstr()); break;
            case 2: r = (unsigned char)m.chr(); break;
            case 3: r = m.wchr(); break;
            case 4: { std::pair<size_t,std::string> v = m.pair(); r = v.first; x = v.second; } break;
            case 5: { std::pair<size_t,std::wstring> v = m.wpair(); r = v.first; xs = codes(v.second); } break;
            case 6: r = m.last(); break;
            case 7: x.assign(m.begin(), m.end()); r = m.accept(); break;
            case 8: { const char *e = m.eol(), *b = m.bol(); x.assign(b, e - b); } break;
            case 9: { const char *e = m.eol(true), *b = m.bol(); x.assign(b, e - b); } break;
            case 10: x = static_cast<std::string>(m); r = static_cast<size_t>(m); break;
            case 11: { std::pair<size_t,std::string> v = m; r = v.first; x = v.second; xs = codes(static_cast<std::wstring>(m)); x.clear(); } break;
            case 12: { std::ostringstream os; os << m; x = os.str(); } break;
            case 13: r = m.avail(); break;
            default: std::cerr << "bad accessor " << n << "\n"; return 3;
          }
          break;
        case '=': // =<d><k>: compared to the index plus d and to the text itself, cut, longer, changed or up to a null
          {
            x = m.str();
            switch (arg.at(1))
            {
              case '1': if (!x.empty()) x.resize(x.size() - 1); break;
              case '2': x += 'x'; break;
              case '3': if (!x.empty()) x[x.size() - 1] ^= 1; break;
              case '4': x = x.c_str(); break;
              case '5': if (!x.empty()) x[0] ^= 32; break;
            }
            std::unique_ptr<char[]> z(new char[strlen(x.c_str()) + 1]);
            strcpy(z.get(), x.c_str());
            r = (m == x ? 1 : 0) + (m != x ? 2 : 0) + (m == z.get() ? 4 : 0) + (m != z.get() ? 8 : 0) + (m == (size_t)n ? 16 : 0) + (m != (size_t)n ? 32 : 0) + (m == (int)n ? 64 : 0) + (m != (int)n ? 128 : 0);
          }
          break;
        case 'j': m.set_bob(n != 0); break;
        case 'M': r = (long long)m.matches(); snap = true; break;
        case 'i': r = m.input(); break;
        case 'I': r = m.winput(); break;
        case 'k': r = m.peek(); break;
        case 'u': m.unput(static_cast<char>(n)); break;
        case 'U': m.wunput(static_cast<int>(n)); break;
        case 'c': r = m.skip(static_cast<char>(n)); break;
        case 'w': r = m.skip(static_cast<wchar_t>(n)); break;
        case 'C': { std::string s = unhex(arg); r = m.skip(s.c_str()); x = s; txt = false; } break;
        case 'm': m.more(); break;
        case 'l': m.less(n); snap = txt = true; break;
        case 't': { const char *s = m.text(); x.assign(s, strlen(s)); } break;
        case 'r': m.rest(); snap = txt = true; break;
        case 'L': x = m.line(); break;
        case 'W': { std::wstring w = m.wline(); r = (long long)w.size(); } break;
        case 'N': m.span(); snap = txt = true; break;
        case 'e': r = m.at_end(); break;
        case 'h': r = m.hit_end(); break;
        case 'b': r = m.at_bol(); break;
        case 'B': r = m.at_bob(); break;
        case 'f': m.flush(); break;
        case 'T': m.tabs(static_cast<char>(n)); break;
        case 'n': m.lineno(n); break;
        case 'y': m.set_bol(n != 0); break;
        case 'Q': m.pattern(*pats.at(n)); break;
        case 'R': n = strtol(arg.c_str() + 1, 0, 10); m.source(arg, inps.at(n), sched, false); break;
        case 'q': snap = txt = true; break;
        case 'z': r = (long long)m.wsize(); break;
        case 'v': m.set_handler(&rec); break;
        case 'd': // all that was shifted out, then the buffered context before the matching line
          { reflex::AbstractMatcher::Context c = m.before(); x = rec.out; if (c.num != rec.out.size()) rec.bad = true; x.append(c.buf, c.len); r = rec.bad ? -1 : (long long)rec.out.size(); } break;
        case 'D': // after(): buffered data at the end of input
          { reflex::AbstractMatcher::Context c = m.after(); x = rec.out; if (c.num != rec.out.size()) rec.bad = true; x.append(c.buf, c.len); r = rec.bad ? -1 : (long long)c.len; } break;
        default: std::cerr << "bad op " << op << "\n"; return 3;
      }
      ev.f("r", r == 0xFFFFFFFFLL ? 2000000001 : r == 0x7FFFFFFFLL ? 2000000000 : r);
      if (txt) x.assign(m.begin(), m.size());
      if (!xs.empty()) ev.o << ",\"x\":" << xs;
      else ev.b("x", x);
      ev.f("s", snap ? 1 : 0);
      if (snap)
      {
        ev.f("f", (long long)m.first());
        ev.f("n", (long long)m.size());
      }
      else
      {
        ev.f("f", 0);
        ev.f("n", 0);
      }
      ev.f("p", pos);
      if (pos)
      {
        ev.o << ",\"l\":[" << m.lineno() << "," << m.columno() << "," << m.lines() << "," << m.lineno_end() << "," << m.columns() << "," << m.columno_end() << "," << m.border() << "," << m.wsize() << "]";
      }
      else
      {
        ev.o << ",\"l\":[]";
      }
      ev.end();
      if (r == 0) break;
      }
    }
    std::cout << "{\"id\":" << a[0] << ",\"ev\":[" << ev.o.str() << "]}\n";
  }
  return 0;
}
