// Compile patterns with reflex::Pattern and report what its public interface shows:
// error code/position, size(), reachable(), operator[], and the exported opcode table.
// stdin: id \t options \t hex(regex)        stdout: one JSON line per pattern
// options "@flags:options": translate the regex first with Matcher::convert
// "unicode" / "posix" as the only argument: print the character classes named on stdin
#include <reflex/matcher.h>
#include <reflex/unicode.h>
#include <reflex/posix.h>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <fstream>
#include <string>
#include <unistd.h>
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
static std::string hex(const std::string& s)
{
  std::string r; char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof(b), "%02x", c); r += b; }
  return r;
}
static reflex::convert_flag_type cflags(const std::string& f)
{
  reflex::convert_flag_type r = reflex::convert_flag::none;
  for (char c : f)
    switch (c)
    {
      case 'u': r |= reflex::convert_flag::unicode; break;
      case 'i': r |= reflex::convert_flag::anycase; break;
      case 'l': r |= reflex::convert_flag::lex; break;
      case 's': r |= reflex::convert_flag::dotall; break;
      case 'x': r |= reflex::convert_flag::freespace; break;
      case 'n': r |= reflex::convert_flag::notnewline; break;
      case 'p': r |= reflex::convert_flag::permissive; break;
      case '4': r |= reflex::convert_flag::u4; break;
      case 'm': r |= reflex::convert_flag::multiline; break;
      case 'r': r |= reflex::convert_flag::recap; break;
      case 'b': r |= reflex::convert_flag::basic; break;
    }
  return r;
}
static int classes(bool unicode)
{
  std::string name;
  while (std::getline(std::cin, name))
  {
    const int *r = unicode ? reflex::Unicode::range(name.c_str()) : reflex::Posix::range(name.c_str());
    std::cout << "{\"name\":\"" << name << "\",\"set\":";
    if (r == NULL)
    {
      std::cout << "null}\n";
      continue;
    }
    std::cout << "[";
    for (bool first = true; r[1] != 0; r += 2, first = false)
      std::cout << (first ? "" : ",") << "[" << r[0] << "," << r[1] << "]";
    std::cout << "]}\n";
  }
  return 0;
}
int main(int argc, char **argv)
{
  if (std::string(argv[1]) == "unicode" || std::string(argv[1]) == "posix")
    return classes(argv[1][0] == 'u');
  std::string tmp = argv[1];
  tmp += "/fsm.cpp";
  std::string line;
  while (std::getline(std::cin, line))
  {
    size_t a = line.find('\t'), b = line.find('\t', a + 1);
    std::string id = line.substr(0, a), opt = line.substr(a + 1, b - a - 1), rex = unhex(line.substr(b + 1));
    std::cout << "{\"id\":" << id;
    ::unlink(tmp.c_str());
    try
    {
      if (!opt.empty() && opt[0] == '@')
      {
        size_t c = opt.find(':');
        rex = reflex::Matcher::convert(rex, cflags(opt.substr(1, c - 1)));
        opt.erase(0, c + 1);
      }
      reflex::Pattern p(rex, "r;" + opt + (opt.empty() || opt.back() == ';' ? "" : ";") + "f=" + tmp);
      std::cout << ",\"err\":0,\"pos\":0,\"size\":" << p.size() << ",\"reach\":[";
      for (unsigned i = 1; i <= p.size() + 2; ++i)
        std::cout << (i > 1 ? "," : "") << (p.reachable(i) ? 1 : 0);
      std::cout << "],\"sub\":[";
      for (unsigned i = 0; i <= p.size(); ++i)
        std::cout << (i > 0 ? "," : "") << "\"" << hex(p[i]) << "\"";
      std::cout << "],\"ops\":[";
      std::ifstream f(tmp);
      std::string l; bool first = true;
      while (std::getline(f, l))
      {
        size_t k = l.find("0x");
        if (k == std::string::npos || k > 4)
          continue;
        std::cout << (first ? "" : ",") << std::stoul(l.substr(k), 0, 16);
        first = false;
      }
      std::cout << "]";
    }
    catch (const reflex::regex_error& e)
    {
      std::cout << ",\"err\":" << (int)e.code() << ",\"pos\":" << e.pos();
    }
    std::cout << "}\n";
  }
  return 0;
}
