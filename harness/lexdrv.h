// Driver for generated scanners: the actions of the generated lexers record events here.
#ifndef LEXDRV_H
#define LEXDRV_H
#include <reflex/input.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
struct LxStop { };
struct Lx {
  std::vector<std::string> in;       // all inputs
  std::vector<size_t> parts;         // main input: parts, one after the other at wrap()
  std::vector<size_t> again;         // inputs to restart with
  size_t part = 0;
  int fuel = 0, depth = 1;
  long buf = 0;                      // read block size, 0: default
  bool once = false;
  std::ostringstream out, ev;
  int n = 0;
  static std::string bytes(const std::string& s)
  {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
    return r + "]";
  }
  void event(const char *t, long id, const std::string& x, long a, int sc, int top, bool empty, const std::string& pos)
  {
    if (n >= 200) throw LxStop();
    ev << (n++ ? "," : "") << "{\"t\":\"" << t << "\",\"id\":" << id << ",\"x\":" << bytes(x) << ",\"a\":" << a << ",\"out\":" << bytes(out.str())
       << ",\"sc\":" << sc << ",\"top\":" << top << ",\"empty\":" << (empty ? 1 : 0) << ",\"depth\":" << depth << ",\"pos\":[" << pos << "]}";
    out.str("");
  }
  template<typename L> void rule(L *l, const char *t, long id)
  {
    std::string x, p; long a = 0;
    // the action of an <<EOF>> rule may also be that of a pattern with action |
    if (*t == 'R' || l->matcher().accept() != 0)
    {
      x.assign(l->matcher().begin(), l->matcher().size());
      a = (long)l->matcher().accept();
      std::ostringstream o;
      o << l->lineno() << "," << l->columno() << "," << l->lines() << "," << l->columns();
      p = o.str();
    }
    event(t, id, x, a, l->start(), l->top_state(), l->states_empty(), p);
  }
  template<typename L> void val(L *l, const char *t, long id, const std::string& x = std::string()) { event(t, id, x, 0, l->start(), l->top_state(), l->states_empty(), ""); }
  bool burn() { if (fuel <= 0) return false; --fuel; return true; }
};
typedef std::string (*LxRun)(Lx&);
struct LxReg {
  static std::map<long, LxRun>& all() { static std::map<long, LxRun> m; return m; }
  LxReg(long id, LxRun f) { all()[id] = f; }
};
template<typename L> std::string lx_drive(Lx& lx, int (L::*lex)())
{
  try
  {
    L l(reflex::Input(lx.in[lx.parts[0]].data(), lx.in[lx.parts[0]].size()));
    l.out(lx.out);
    l.lg = &lx;
    size_t r = 0;
    while (true)
    {
      int k = (l.*lex)();
      lx.val(&l, "r", k);
      if (k == 0)
      {
        if (r >= lx.again.size()) break;
        const std::string& s = lx.in[lx.again[r]];
        lx.part = lx.parts.size(); // no more parts of the main input
        l.in(reflex::Input(s.data(), s.size()));
        lx.val(&l, "N", (long)lx.again[r] + 1);
        ++r;
      }
    }
  }
  catch (const LxStop&) { }
  catch (const std::runtime_error& e) { return e.what(); }
  return "";
}
// what the caller of a scanner function receives
struct LxCall {
  long k = 0;
  std::string loc, text;
  bool has = false;
  long line = -1;
};
template<typename L, typename F, typename N> std::string lx_drive2(Lx& lx, L& l, F call, N input)
{
  try
  {
    size_t r = 0;
    while (true)
    {
      LxCall c;
      call(c);
      std::ostringstream o;
      o << "],\"cl\":{\"loc\":[" << c.loc << "],\"has\":" << c.has << ",\"txt\":" << Lx::bytes(c.text) << ",\"line\":" << c.line << "},\"z\":[";
      lx.event("r", c.k, "", 0, l.start(), l.top_state(), l.states_empty(), o.str());
      if (c.k == 0)
      {
        if (r >= lx.again.size()) break;
        const std::string& s = lx.in[lx.again[r]];
        lx.part = lx.parts.size(); // no more parts of the main input
        input(s);
        lx.val(&l, "N", (long)lx.again[r] + 1);
        ++r;
      }
    }
  }
  catch (const LxStop&) { }
  catch (const std::runtime_error& e) { return e.what(); }
  return "";
}
static inline FILE *lx_file(const std::string& s) { FILE *f = tmpfile(); if (!s.empty()) fwrite(s.data(), 1, s.size(), f); rewind(f); return f; }
#define LX_MEMBERS \
 public: \
  Lx *lg; \
  int lx_wrap() { if (lg->depth > 1 || lg->part + 1 >= lg->parts.size()) return 1; const std::string& s = lg->in[lg->parts[++lg->part]]; in() = reflex::Input(s.data(), s.size()); return 0; } \
  void lx_open(size_t i) { if (lg->depth < 4 && lg->burn()) { const std::string& s = lg->in[i]; push_matcher(new_matcher(reflex::Input(s.data(), s.size()))); ++lg->depth; } } \
  void lx_close() { if (lg->depth > 1) { pop_matcher(); --lg->depth; } } \
  void lx_once() { if (!lg->once) { lg->once = true; if (lg->buf > 0) matcher().buffer(lg->buf); } }
#endif
