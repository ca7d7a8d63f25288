// Indentation matching driver.
// stdin, tab separated: id regex(hex) pattern-options tab input(hex) ops(space list)
// ops: S scan, F find (each repeated until 0 with '*'), i<n> insert_stop, d<n> delete_stop, c clear_stops, p push_stops,
//      o pop_stops, T<n> tabs; r is the accept index or last_stop(), s the stops after it
#include <reflex/matcher.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <vector>
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
static std::vector<std::string> split(const std::string& s, char d)
{
  std::vector<std::string> v; std::string t; std::istringstream is(s);
  while (std::getline(is, t, d)) v.push_back(t);
  return v;
}
static std::map<std::string, std::shared_ptr<reflex::Pattern> > cache;
int main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> a = split(line, '\t');
    while (a.size() < 6) a.push_back("");
    std::string rex = unhex(a[1]), inp = unhex(a[4]);
    std::shared_ptr<reflex::Pattern>& pat = cache[a[2] + "\t" + rex];
    try { if (!pat) pat.reset(new reflex::Pattern(rex, "r;" + a[2])); }
    catch (const reflex::regex_error& e) { std::cout << "{\"id\":" << a[0] << ",\"err\":" << e.code() << "}\n"; continue; }
    reflex::Matcher m(*pat, reflex::Input(inp.data(), inp.size()), ("T=" + a[3]).c_str());
    std::ostringstream o;
    bool first = true;
    size_t pushed = 0;
    for (const std::string& tok : split(a[5], ' '))
    {
      bool loop = tok.back() == '*';
      for (int k = 0; k < (loop ? 400 : 1); ++k)
      {
        long n = atol(tok.c_str() + 1);
        size_t r = 0;
        std::string x;
        size_t f = 0;
        switch (tok[0])
        {
          case 'S': r = m.scan(); x.assign(m.begin(), m.size()); f = m.first(); break;
          case 'F': r = m.find(); x.assign(m.begin(), m.size()); f = m.first(); break;
          case 'i': m.insert_stop(n); r = m.last_stop(); break;
          case 'd': m.delete_stop(n); r = m.last_stop(); break;
          case 'c': m.clear_stops(); r = m.last_stop(); break;
          case 'p': m.push_stops(); ++pushed; r = m.last_stop(); break;
          case 'o': if (pushed > 0) { m.pop_stops(); --pushed; } r = m.last_stop(); break;
          case 'T': m.tabs(static_cast<char>(n)); r = m.last_stop(); break;
        }
        o << (first ? "" : ",") << "{\"o\":\"" << tok[0] << "\",\"a\":" << n << ",\"r\":" << r << ",\"f\":" << f << ",\"x\":[";
        for (size_t i = 0; i < x.size(); ++i) o << (i ? "," : "") << (int)(unsigned char)x[i];
        o << "],\"s\":[";
        for (size_t i = 0; i < m.stops().size(); ++i) o << (i ? "," : "") << m.stops()[i];
        o << "]}";
        first = false;
        if (r == 0 && loop) break;
      }
    }
    std::cout << "{\"id\":" << a[0] << ",\"ev\":[" << o.str() << "]}\n";
  }
  return 0;
}
