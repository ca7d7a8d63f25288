// Session driver for every matcher engine: executes a scripted history of public calls and records one event per call (see mdrv.cpp).
// stdin, one session per line, tab separated: id  regex(hex)  engine  matcher-options  source  input(hex)  schedule  ops
// engine: M reflex::Matcher | P BoostPosixMatcher | B BoostPerlMatcher | b BoostMatcher | E StdEcmaMatcher | X StdPosixMatcher | R PCRE2Matcher | U PCRE2UTFMatcher
#include <reflex/matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/stdmatcher.h>
#include <reflex/pcre2matcher.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
static std::vector<std::string> split(const std::string& s, char d)
{
  std::vector<std::string> v; std::string t; std::istringstream is(s);
  while (std::getline(is, t, d)) v.push_back(t);
  return v;
}
static std::string bytes(const char *s, size_t n)
{
  std::string r = "[";
  for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
template <class E> struct Sched : public E {
  template <class P> Sched(const P& p, const char *opt) : E(p, reflex::Input(), opt), off(0), turn(0) { }
  virtual size_t get(char *s, size_t n)
  {
    if (!active) return E::get(s, n);
    size_t avail = data.size() - off;
    size_t k = sched.empty() ? n : sched[turn++ % sched.size()];
    if (k == 0) k = 1;
    if (k > n) k = n;
    if (k > avail) k = avail;
    memcpy(s, data.data() + off, k);
    off += k;
    return k;
  }
  std::string data; std::vector<size_t> sched; size_t off, turn; bool active = false;
  FILE *file = NULL; std::istringstream is; std::vector<char> place;
  ~Sched() { if (file) fclose(file); }
  void source(const std::string& srcs, const std::string& inp, const std::vector<size_t>& sch, bool first)
  {
    Sched& m = *this;
    char src = srcs.empty() ? 'c' : srcs[0];
    m.active = false; m.off = 0; m.turn = 0;
    switch (src)
    {
      case 'g': if (!first) m.input(reflex::Input()); m.active = true; m.data = inp; m.sched = sch; break;
      case 'G': if (!first) m.input(reflex::Input()); m.active = true; m.data = inp; m.sched = sch; m.buffer(); break;
      case 'p': { std::vector<char> v(inp.begin(), inp.end()); v.push_back(0); m.buffer(v.data(), v.size()); place.swap(v); } break;
      case 'C': m.input(inp.c_str()); break;
      case 'B': m.input(reflex::Input(inp.data(), inp.size())); m.buffer(); break;
      case 'i': m.input(reflex::Input(inp.data(), inp.size())); m.interactive(); break;
      case 'n': m.input(reflex::Input(inp.data(), inp.size())); m.buffer(strtoul(srcs.c_str() + 1, 0, 10)); break;
      case 'f': { FILE *f = tmpfile(); fwrite(inp.data(), 1, inp.size(), f); rewind(f); m.input(reflex::Input(f, reflex::Input::file_encoding::plain)); if (file) fclose(file); file = f; } break;
      case 's': is.clear(); is.str(inp); m.input(reflex::Input(is)); break;
      default: m.input(reflex::Input(inp.data(), inp.size())); break;
    }
  }
};
struct Rec : public reflex::AbstractMatcher::Handler {
  virtual void operator()(reflex::AbstractMatcher&, const char *buf, size_t len, size_t num)
  {
    if (num != out.size()) bad = true;
    out.append(buf, len);
  }
  std::string out; bool bad = false;
};
struct Ev {
  std::ostringstream o; bool first = true;
  void begin(const std::string& op) { o << (first ? "" : ",") << "{\"o\":\"" << op << "\""; first = false; }
  void f(const char *k, long long v) { o << ",\"" << k << "\":" << v; }
  void b(const char *k, const std::string& v) { o << ",\"" << k << "\":" << bytes(v.data(), v.size()); }
  void end() { o << "}"; }
};
template <class E> static bool session(const std::vector<std::string>& a, std::ostream& os, E *(*make)(const std::string&, const char*))
{
  std::vector<std::string> inps = split(a[5], ',');
  if (inps.empty() || a[5].back() == ',') inps.push_back("");
  for (std::string& t : inps) t = unhex(t);
  std::vector<size_t> sched;
  for (const std::string& t : split(a[6], ',')) sched.push_back(strtoul(t.c_str(), 0, 10));
  std::unique_ptr<E> mp(make(unhex(a[1]), a[3].c_str()));
  E& m = *mp;
  m.source(a[4], inps[0], sched, true);
  Rec rec;
  Ev ev;
  for (const std::string& tok : split(a[7], ' '))
  {
    if (tok.empty()) continue;
    // '*': repeat until the result is zero, at most 300 times
    bool loop = tok.back() == '*';
    for (int again = 0; again < (loop ? 300 : 1); ++again)
    {
    char op = tok[0];
    bool pos = false;
    std::string arg = tok.substr(1);
    if (loop) arg.pop_back();
    if (!arg.empty() && arg.back() == '!') { pos = true; arg.pop_back(); }
    long n = arg.empty() || op == 'C' ? 0 : op == 'R' ? strtol(arg.c_str() + 1, 0, 10) : strtol(arg.c_str(), 0, 10);
    ev.begin(std::string(1, op));
    ev.f("a", n);
    long long r = 0;
    std::string x;
    bool snap = false, txt = false;
    switch (op)
    {
      case 'S': r = (long long)m.scan(); snap = txt = true; break;
      case 'F': r = (long long)m.find(); snap = txt = true; break;
      case 'P': r = (long long)m.split(); snap = txt = true; break;
      case 'M': r = (long long)m.matches(); snap = true; break;
      case 'i': r = m.input(); break;
      case 'I': r = m.winput(); break;
      case 'k': r = m.peek(); break;
      case 'u': m.unput(static_cast<char>(n)); break;
      case 'U': m.wunput(static_cast<int>(n)); break;
      case 'c': r = m.skip(static_cast<char>(n)); break;
      case 'w': r = m.skip(static_cast<wchar_t>(n)); break;
      case 'C': { std::string s = unhex(arg); r = m.skip(s.c_str()); x = s; txt = false; } break;
      case 'm': m.more(); break;
      case 'l': m.less(n); snap = txt = true; break;
      case 't': { const char *s = m.text(); x.assign(s, strlen(s)); } break;
      case 'r': m.rest(); snap = txt = true; break;
      case 'L': x = m.line(); break;
      case 'W': { std::wstring w = m.wline(); r = (long long)w.size(); } break;
      case 'N': m.span(); snap = txt = true; break;
      case 'e': r = m.at_end(); break;
      case 'h': r = m.hit_end(); break;
      case 'b': r = m.at_bol(); break;
      case 'B': r = m.at_bob(); break;
      case 'f': m.flush(); break;
      case 'T': m.tabs(static_cast<char>(n)); break;
      case 'n': m.lineno(n); break;
      case 'y': m.set_bol(n != 0); break;
              case 'R': n = strtol(arg.c_str() + 1, 0, 10); m.source(arg, inps.at(n), sched, false); break;
      case 'G': if (m.accept() != 0) { std::pair<size_t,const char*> g = m.group_id(); r = (long long)g.first; } break;
      case 'g': if (m.accept() != 0) { std::pair<const char*,size_t> g = m[n]; r = g.first == NULL ? -1 : (long long)(g.first - m.begin()); x.assign(g.first == NULL ? "" : g.first, g.second); } break;
      case 'q': snap = txt = true; break;
      case 'z': r = (long long)m.wsize(); break;
      case 'v': m.set_handler(&rec); break;
      case 'd': // all that was shifted out, then the buffered context before the matching line
        { reflex::AbstractMatcher::Context c = m.before(); x = rec.out; if (c.num != rec.out.size()) rec.bad = true; x.append(c.buf, c.len); r = rec.bad ? -1 : (long long)rec.out.size(); } break;
      case 'D': // after(): buffered data at the end of input
        { reflex::AbstractMatcher::Context c = m.after(); x = rec.out; if (c.num != rec.out.size()) rec.bad = true; x.append(c.buf, c.len); r = rec.bad ? -1 : (long long)c.len; } break;
      default: std::cerr << "bad op " << op << "\n"; exit(3);
    }
    ev.f("r", r == 0xFFFFFFFFLL ? 2000000001 : r == 0x7FFFFFFFLL ? 2000000000 : r);
    if (txt) x.assign(m.begin(), m.size());
    ev.b("x", x);
    ev.f("s", snap ? 1 : 0);
    if (snap)
    {
      ev.f("f", (long long)m.first());
      ev.f("n", (long long)m.size());
    }
    else
    {
      ev.f("f", 0);
      ev.f("n", 0);
    }
    ev.f("p", pos);
    if (pos)
    {
      ev.o << ",\"l\":[" << m.lineno() << "," << m.columno() << "," << m.lines() << "," << m.lineno_end() << "," << m.columns() << "," << m.columno_end() << "," << m.border() << "," << m.wsize() << "]";
    }
    else
    {
      ev.o << ",\"l\":[]";
    }
    ev.end();
    if (r == 0) break;
    }
  }
  os << "{\"id\":" << a[0] << ",\"ev\":[" << ev.o.str() << "]}\n";
  return true;
}
template <class E> static Sched<E> *conv(const std::string& regex, const char *opt)
{
  return new Sched<E>(E::convert(regex.c_str(), reflex::convert_flag::none), opt);
}
// the pattern object is kept for as long as the matcher is used
static std::string last;
template <class E, class P> static Sched<E> *keep(const std::string& regex, const char *opt)
{
  static std::map<std::string, std::shared_ptr<P> > cache;
  std::shared_ptr<P>& p = cache[regex];
  if (!p) p.reset(new P(E::convert(regex.c_str(), reflex::convert_flag::none)));
  return new Sched<E>(*p, opt);
}
int main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> a = split(line, '\t');
    while (a.size() < 9) a.push_back("");
    try
    {
      switch (a[2].empty() ? 'M' : a[2][0])
      {
        case 'M': session<Sched<reflex::Matcher> >(a, std::cout, conv<reflex::Matcher>); break;
        case 'P': session<Sched<reflex::BoostPosixMatcher> >(a, std::cout, conv<reflex::BoostPosixMatcher>); break;
        case 'B': session<Sched<reflex::BoostPerlMatcher> >(a, std::cout, conv<reflex::BoostPerlMatcher>); break;
        case 'b': session<Sched<reflex::BoostMatcher> >(a, std::cout, keep<reflex::BoostMatcher, boost::regex>); break;
        case 'E': session<Sched<reflex::StdEcmaMatcher> >(a, std::cout, conv<reflex::StdEcmaMatcher>); break;
        case 'X': session<Sched<reflex::StdPosixMatcher> >(a, std::cout, conv<reflex::StdPosixMatcher>); break;
        case 'R': session<Sched<reflex::PCRE2Matcher> >(a, std::cout, conv<reflex::PCRE2Matcher>); break;
        case 'U': session<Sched<reflex::PCRE2UTFMatcher> >(a, std::cout, conv<reflex::PCRE2UTFMatcher>); break;
        default: return 3;
      }
    }
    catch (const reflex::regex_error& e) { std::cout << "{\"id\":" << a[0] << ",\"err\":" << e.code() << "}\n"; }
    catch (const std::exception& e) { std::cerr << e.what() << "\n"; // Boost gives up on some regexes
      if (a[2] == "P" && strstr(e.what(), "omplexity")) std::cout << "{\"id\":" << a[0] << ",\"ev\":[]}\n"; else std::cout << "{\"id\":" << a[0] << ",\"err\":999}\n"; }
  }
  return 0;
}
