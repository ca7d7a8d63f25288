// setdrv: replays histories on Ranges, ORanges, Bits and the operations on ordered sets
// input line: type \t op op ...    op: name:x:y:a:b   or name!:x:y:a:b (expression that makes a new container)
// output line: {"t":..,"ev":[..]}
#include <reflex/ranges.h>
#include <reflex/bits.h>
#include <reflex/setop.h>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace reflex;

struct Op { std::string o; int x, y; long a, b; bool q; };

typedef std::vector< std::pair<long,long> > Runs;

static std::string js(const Runs& r)
{
  std::string s = "[";
  for (size_t i = 0; i < r.size(); ++i)
    s += (i ? "," : "") + ("[" + std::to_string(r[i].first) + "," + std::to_string(r[i].second) + "]");
  return s + "]";
}

// closed ranges: logged at twice the scale of the bounds
struct ClosedInt {
  typedef Ranges<int> S;
  static int val(long a) { return a / 2; }
  static long log(int v) { return 2L * v; }
  static long loghi(int v) { return 2L * v; }
};
struct ClosedDouble {
  typedef Ranges<double> S;
  static double val(long a) { return a * 0.25 - 3; }
  static long log(double v) { return static_cast<long>((v + 3) * 4); }
  static long loghi(double v) { return log(v); }
};
template<typename T, int shift> struct Open {
  typedef ORanges<T> S;
  static T val(long a) { return static_cast<T>(a + shift); }
  static long log(T v) { return static_cast<long>(v) - shift; }
  static long loghi(T v) { return static_cast<long>(v) - shift - 1; }
};

template<typename S> auto sub(S& a, const S& b, int) -> decltype(a -= b, void()) { a -= b; }
template<typename S> void sub(S&, const S&, long) { abort(); }
template<typename S> auto diff(const S& a, const S& b, int) -> decltype(S(a - b)) { return a - b; }
template<typename S> S diff(const S& a, const S&, long) { abort(); return a; }
template<typename S, typename T> auto del(S& s, T a, T b, int) -> decltype(bool(s.erase(a, b))) { return a == b ? s.erase(a) : s.erase(a, b); }
template<typename S, typename T> bool del(S&, T, T, long) { abort(); return false; }

template<typename K> struct RangeBox {
  typedef typename K::S S;
  S s[2];
  static Runs runs(const S& t)
  {
    Runs r;
    for (typename S::const_iterator i = t.begin(); i != t.end(); ++i)
      r.push_back(std::make_pair(K::log(i->first), K::loghi(i->second)));
    return r;
  }
  long size(int) { return 0; }
  bool op(const Op& e, long& r, Runs& c)
  {
    S& x = s[e.x];
    S& y = s[e.y];
    const S& cx = x;
    r = -1;
    if (e.q)
    {
      S t;
      if (e.o == "or") t = e.a ? cx | y : cx + y;
      else if (e.o == "and") t = cx & y;
      else if (e.o == "sub") t = diff(cx, y, 0);
      else if (e.o == "assign") t = S(y);
      else if (e.o == "insert") { t = x; S u(K::val(e.a), K::val(e.b)); t |= u; }
      else abort();
      c = runs(t);
      return true;
    }
    if (e.o == "insert")
      r = e.a == e.b ? x.insert(K::val(e.a)).second : x.insert(K::val(e.a), K::val(e.b)).second;
    else if (e.o == "erase") r = del(x, K::val(e.a), K::val(e.b), 0);
    else if (e.o == "or") { if (e.a) x |= y; else x += y; }
    else if (e.o == "and") x &= y;
    else if (e.o == "sub") sub(x, y, 0);
    else if (e.o == "assign") x = y;
    else if (e.o == "swap") x.swap(y);
    else if (e.o == "clear") x.clear();
    else if (e.o == "any") { r = cx.any(); return false; }
    else if (e.o == "intersects") { r = cx.intersects(y); return false; }
    else if (e.o == "contains") { r = cx.contains(y); return false; }
    else if (e.o == "has") { r = cx.find(K::val(e.a)) != cx.end(); return false; }
    else if (e.o == "lt") { r = cx < y; return false; }
    else if (e.o == "gt") { r = cx > y; return false; }
    else if (e.o == "le") { r = cx <= y; return false; }
    else if (e.o == "ge") { r = cx >= y; return false; }
    else if (e.o == "eq") { r = cx == y; return false; }
    else if (e.o == "ne") { r = cx != y; return false; }
    else if (e.o == "lo") { r = cx.empty() ? -1 : K::log(cx.lo()); return false; }
    else if (e.o == "hi") { r = cx.empty() ? -1 : K::log(cx.hi()); return false; }
    else if (e.o == "find")
    {
      typename S::const_iterator i = cx.find(K::val(e.a), K::val(e.b));
      r = 0;
      if (i != cx.end())
        r = 1 + std::distance(cx.begin(), i);
      return false;
    }
    else abort();
    c = runs(x);
    return true;
  }
};

struct BitBox {
  Bits s[2];
  static Runs runs(const Bits& t)
  {
    Runs r;
    for (size_t i = t.find_first(); i != Bits::npos; i = t.find_next(i))
    {
      if (!r.empty() && r.back().second + 1 == (long)i)
        r.back().second = i;
      else
        r.push_back(std::make_pair((long)i, (long)i));
    }
    return r;
  }
  long last;
  long size(int x) { return last >= 0 ? last : (long)s[x].size(); }
  bool op(const Op& e, long& r, Runs& c)
  {
    Bits& x = s[e.x];
    Bits& y = s[e.y];
    const Bits& cx = x;
    r = -1;
    last = -1;
    if (e.q)
    {
      Bits t;
      if (e.o == "or") t = cx | y;
      else if (e.o == "and") t = cx & y;
      else if (e.o == "sub") t = cx - y;
      else if (e.o == "xor") t = cx ^ y;
      else if (e.o == "assign") { Bits u(y); t = u; }
      else if (e.o == "flipall") t = ~cx;
      else if (e.o == "insert") { if (e.a == e.b) t = cx | Bits((size_t)e.a); else t = cx | Bits((size_t)e.a, (size_t)e.b); }
      else abort();
      last = t.size();
      c = runs(t);
      return true;
    }
    if (e.o == "insert") { if (e.a == e.b) x.insert((size_t)e.a); else x.insert((size_t)e.a, (size_t)e.b); }
    else if (e.o == "erase") { if (e.a == e.b) x.erase((size_t)e.a); else x.erase((size_t)e.a, (size_t)e.b); }
    else if (e.o == "flip") { if (e.a == e.b) x.flip((size_t)e.a); else x.flip((size_t)e.a, (size_t)e.b); }
    else if (e.o == "flipall") x.flip();
    else if (e.o == "or") x |= y;
    else if (e.o == "and") x &= y;
    else if (e.o == "sub") x -= y;
    else if (e.o == "xor") x ^= y;
    else if (e.o == "assign") x = y;
    else if (e.o == "swap") x.swap(y);
    else if (e.o == "clear") x.clear();
    else if (e.o == "lshift") x.lshift();
    else if (e.o == "rshift") x.rshift();
    else if (e.o == "set") { bool b = x[(size_t)e.a] = (e.b != 0); r = b; }
    else if (e.o == "bitor") r = x[(size_t)e.a] |= (e.b != 0);
    else if (e.o == "bitand") r = x[(size_t)e.a] &= (e.b != 0);
    else if (e.o == "bitxor") r = x[(size_t)e.a] ^= (e.b != 0);
    else if (e.o == "any") { r = cx.any(); return false; }
    else if (e.o == "all") { r = cx.all(); return false; }
    else if (e.o == "count") { r = cx.count(); return false; }
    else if (e.o == "intersects") { r = cx.intersects(y); return false; }
    else if (e.o == "contains") { r = cx.contains(y); return false; }
    else if (e.o == "has") { r = cx[(size_t)e.a]; return false; }
    else if (e.o == "lt") { r = cx < y; return false; }
    else if (e.o == "gt") { r = cx > y; return false; }
    else if (e.o == "le") { r = cx <= y; return false; }
    else if (e.o == "ge") { r = cx >= y; return false; }
    else if (e.o == "eq") { r = cx == y; return false; }
    else if (e.o == "ne") { r = cx != y; return false; }
    else if (e.o == "first") { size_t n = cx.find_first(); r = n == Bits::npos ? -1 : (long)n; return false; }
    else if (e.o == "next") { size_t n = cx.find_next((size_t)e.a); r = n == Bits::npos ? -1 : (long)n; return false; }
    else abort();
    c = runs(x);
    return true;
  }
};

template<typename S> struct SetBox {
  S s[2];
  static Runs list(const std::vector<int>& v)
  {
    // out of order and repeated elements stay visible in the runs
    Runs r;
    for (size_t i = 0; i < v.size(); ++i)
    {
      if (!r.empty() && r.back().second + 1 == v[i])
        r.back().second = v[i];
      else
        r.push_back(std::make_pair((long)v[i], (long)v[i]));
    }
    return r;
  }
  static Runs runs(const S& t)
  {
    std::vector<int> v(t.begin(), t.end());
    return list(norm(v));
  }
  static std::vector<int> norm(std::vector<int> v)
  {
    typename S::key_compare lt;
    if (lt(2, 1))
      return std::vector<int>(v.rbegin(), v.rend());
    return v;
  }
  long size(int) { return 0; }
  template<typename L> static Runs lazy(const L& l, bool post)
  {
    std::vector<int> v;
    if (post)
    {
      typename L::iterator i = l.begin();
      while (i != l.end() && v.size() < 10000)
        v.push_back(*i++);
    }
    else
    {
      for (typename L::iterator i = l.begin(); !(i == l.end()) && v.size() < 10000; ++i)
        v.push_back(*i);
    }
    return list(norm(v));
  }
  bool op(const Op& e, long& r, Runs& c)
  {
    S& x = s[e.x];
    S& y = s[e.y];
    r = -1;
    if (e.q)
    {
      if (e.o == "or") c = lazy(lazy_union<S,S>(x, y), e.a != 0);
      else if (e.o == "and") c = lazy(lazy_intersection<S,S>(x, y), e.a != 0);
      else abort();
      return true;
    }
    if (e.o == "insert") { for (long i = e.a; i <= e.b; ++i) x.insert(i); }
    else if (e.o == "erase") { for (long i = e.a; i <= e.b; ++i) x.erase(i); }
    else if (e.o == "or") set_insert(x, y);
    else if (e.o == "sub") set_delete(x, y);
    else if (e.o == "assign") x = y;
    else if (e.o == "swap") x.swap(y);
    else if (e.o == "clear") x.clear();
    else if (e.o == "disjoint") { r = is_disjoint(x, y); return false; }
    else if (e.o == "subset") { r = is_subset(x, y); return false; }
    else if (e.o == "has") { r = is_in_set((int)e.a, x); return false; }
    else abort();
    c = runs(x);
    return true;
  }
};

template<typename B> void play(B& b, const std::string& t, const std::vector<Op>& ops)
{
  std::string out = "{\"t\":\"" + t + "\",\"ev\":[";
  for (size_t i = 0; i < ops.size(); ++i)
  {
    const Op& e = ops[i];
    long r = -1;
    Runs c;
    Runs d;
    bool m = b.op(e, r, c);
    if (m)
      d = b.runs(b.s[e.q ? e.x : e.y]);
    out += (i ? "," : "") + ("{\"o\":\"" + e.o + "\",\"x\":" + std::to_string(e.x) + ",\"y\":" + std::to_string(e.y)
      + ",\"a\":" + std::to_string(e.a) + ",\"b\":" + std::to_string(e.b) + ",\"q\":" + std::to_string((int)e.q)
      + ",\"r\":" + std::to_string(r) + ",\"c\":" + js(c) + ",\"d\":" + js(d) + ",\"z\":" + std::to_string(b.size(e.x)) + "}");
  }
  printf("%s]}\n", out.c_str());
  fflush(stdout);
}

int main()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string t, w;
    is >> t;
    std::vector<Op> ops;
    while (is >> w)
    {
      Op e;
      size_t p = w.find(':');
      e.o = w.substr(0, p);
      e.q = e.o.back() == '!';
      if (e.q)
        e.o.pop_back();
      sscanf(w.c_str() + p, ":%d:%d:%ld:%ld", &e.x, &e.y, &e.a, &e.b);
      ops.push_back(e);
    }
    if (t == "int") { RangeBox<ClosedInt> b; play(b, t, ops); }
    else if (t == "double") { RangeBox<ClosedDouble> b; play(b, t, ops); }
    else if (t == "oint") { RangeBox< Open<int,-7> > b; play(b, t, ops); }
    else if (t == "ouchar") { RangeBox< Open<unsigned char,0> > b; play(b, t, ops); }
    else if (t == "oschar") { RangeBox< Open<signed char,-128> > b; play(b, t, ops); }
    else if (t == "bits") { BitBox b; b.last = -1; play(b, t, ops); }
    else if (t == "set") { SetBox< std::set<int> > b; play(b, t, ops); }
    else if (t == "gset") { SetBox< std::set<int,std::greater<int> > > b; play(b, t, ops); }
  }
  return 0;
}
