// fuzzdrv: fuzzy matching; one line per case: id, regex, max with flags, input, op (M matches, F find all, S scan all, P split all), schedule,
// how the matcher is made (empty: constructed, C copied, L cloned, A assigned to one with another pattern, R used before on another text)
#include <fuzzymatcher.h>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
static std::string unhex(const std::string& s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(strtol(s.substr(i, 2).c_str(), 0, 16)); return r; }
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
struct M : public reflex::FuzzyMatcher {
  M(const reflex::Pattern& p, uint16_t max) : reflex::FuzzyMatcher(p, max), at(0), k(0), active(false) { }
  std::string data; std::vector<size_t> sched; size_t at, k; bool active;
  M(const M& m) : reflex::FuzzyMatcher(static_cast<const reflex::FuzzyMatcher&>(m)), at(0), k(0), active(false) { }
  M& operator=(const M& m) { active = false; reflex::FuzzyMatcher::operator=(m); return *this; }
  virtual reflex::FuzzyMatcher *clone() { return new M(*this); }
  virtual size_t get(char *s, size_t n)
  {
    if (!active) return reflex::FuzzyMatcher::get(s, n);
    if (!sched.empty()) n = std::min(n, std::max<size_t>(1, sched[k++ % sched.size()]));
    n = std::min(n, data.size() - at);
    memcpy(s, data.data() + at, n);
    at += n;
    return n;
  }
};
int main()
{
  reflex::Pattern q("foobar");
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> a = split(line, '\t');
    a.resize(7);
    std::cout << "{\"id\":" << a[0];
    try
    {
      reflex::Pattern p(unhex(a[1]));
      M m0(p, static_cast<uint16_t>(strtoul(a[2].c_str(), 0, 10))), m1(q, 1), m2(m0), *mp = &m0;
      std::unique_ptr<reflex::FuzzyMatcher> cl(m0.clone());
      char how = a[6].empty() ? 'D' : a[6][0];
      if (how == 'C') mp = &m2;
      else if (how == 'L') mp = static_cast<M*>(cl.get());
      else if (how == 'A' || how == 'B')
      {
        m1.input("fooba");
        if (how == 'B') m1.find();
        m1 = m0;
        mp = &m1;
      }
      else if (how == 'R')
      {
        m0.input(unhex(a[3]) + "x");
        if (a[4] == "M") m0.matches(); else if (a[4] == "P") m0.split(); else m0.find();
        m0.input("");
      }
      M& m = *mp;
      m.data = unhex(a[3]);
      for (const std::string& t : split(a[5], ',')) m.sched.push_back(strtoul(t.c_str(), 0, 10));
      m.active = true;
      std::cout << ",\"ev\":[";
      for (int i = 0; i < 300; ++i)
      {
        size_t r = a[4] == "M" ? (m.matches() ? m.accept() : 0) : a[4] == "F" ? m.find() : a[4] == "S" ? m.scan() : m.split();
        if (i) std::cout << ",";
        std::cout << "{\"o\":\"" << a[4] << "\",\"r\":" << (r == 0xFFFFFFFFUL ? 2000000001UL : r) << ",\"e\":" << (int)m.edits() << ",\"f\":" << m.first() << ",\"x\":[";
        for (size_t j = 0; j < m.size(); ++j) std::cout << (j ? "," : "") << (int)static_cast<unsigned char>(m.begin()[j]);
        std::cout << "]}";
        if (r == 0 || a[4] == "M") break;
      }
      std::cout << "]}\n";
    }
    catch (const std::exception& e) { std::cerr << e.what(); std::cout << ",\"err\":1}\n"; }
  }
}
