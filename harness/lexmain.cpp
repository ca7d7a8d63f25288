// stdin, one session per line, tab separated: id lexer parts(comma list) again(comma list) fuel buf inputs(comma list of hex)
#include <reflex/input.h>
#include "lexdrv.h"
static std::vector<std::string> split(const std::string& s, char d)
{
  std::vector<std::string> v; std::string t; std::istringstream is(s);
  while (std::getline(is, t, d)) v.push_back(t);
  return v;
}
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> a = split(line, '\t');
    a.resize(7);
    Lx lx;
    for (auto& t : split(a[2], ',')) lx.parts.push_back(strtoul(t.c_str(), 0, 10));
    for (auto& t : split(a[3], ',')) lx.again.push_back(strtoul(t.c_str(), 0, 10));
    lx.fuel = atoi(a[4].c_str());
    lx.buf = atol(a[5].c_str());
    for (auto& t : split(a[6] + ",.", ',')) lx.in.push_back(t == "." ? "" : unhex(t));
    std::string err = LxReg::all().at(atol(a[1].c_str()))(lx);
    if (!err.empty()) { try { lx.event("X", 0, "", 0, -1, -1, true, ""); } catch (const LxStop&) { } }
    std::cout << "{\"id\":" << a[0] << ",\"ev\":[" << lx.ev.str() << "]}" << std::endl;
  }
}
