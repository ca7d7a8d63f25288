// scanners in shared libraries: argv[1] is the directory of the libraries l<lexer>.so
// stdin, one session per line, tab separated: id lexer parts(comma list) again(comma list) fuel buf inputs(comma list of hex)
#include <reflex/input.h>
#include "lexdrv.h"
#include <dlfcn.h>

static std::vector<std::string> split(const std::string& s, char d)
{
  std::vector<std::string> v; std::string t; std::istringstream is(s);
  while (std::getline(is, t, d)) v.push_back(t);
  return v;
}
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
int main(int, char **argv)
{
  std::map<long, LxRun> so;
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> a = split(line, '\t');
    a.resize(7);
    Lx lx;
    for (auto& t : split(a[2], ',')) lx.parts.push_back(strtoul(t.c_str(), 0, 10));
    for (auto& t : split(a[3], ',')) lx.again.push_back(strtoul(t.c_str(), 0, 10));
    lx.fuel = atoi(a[4].c_str());
    lx.buf = atol(a[5].c_str());
    for (auto& t : split(a[6] + ",.", ',')) lx.in.push_back(t == "." ? "" : unhex(t));
    long id = atol(a[1].c_str());
    LxRun& run = so[id];
    if (run == NULL)
    {
      void *h = dlopen((std::string(argv[1]) + "/l" + a[1] + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
      if (h == NULL) { std::cerr << dlerror() << std::endl; return 3; }
      run = reinterpret_cast<LxRun>(dlsym(h, "lx_run"));
    }
    std::string err = run(lx);
    if (!err.empty()) { try { lx.event("X", 0, "", 0, -1, -1, true, ""); } catch (const LxStop&) { } }
    std::cout << "{\"id\":" << a[0] << ",\"ev\":[" << lx.ev.str() << "]}" << std::endl;
  }
}
