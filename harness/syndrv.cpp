// What Matcher::convert and Pattern answer to a regex.
// stdin: hex(regex) per line     stdout: code of convert+compile, error position, length of the regex it refers to, code of compile alone, position
#include <reflex/matcher.h>
#include <iostream>
#include <string>
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::string s = unhex(line);
    int v = -1, d = -1;
    size_t p = 0, m = s.size(), dp = 0;
    std::string c;
    try { c = reflex::Matcher::convert(s); m = s.size(); }
    catch (const reflex::regex_error& e) { v = e.code(); p = e.pos(); }
    if (v < 0)
    {
      try { reflex::Pattern pat(c, "r"); }
      catch (const reflex::regex_error& e) { v = e.code(); p = e.pos(); m = c.size(); }
    }
    try { reflex::Pattern pat(s, "r"); }
    catch (const reflex::regex_error& e) { d = e.code(); dp = e.pos(); }
    // errors are ignored by default
    try { reflex::Pattern pat(s); }
    catch (const reflex::regex_error& e) { if (e.code() < reflex::regex_error::exceeds_length) d = 99; }
    std::cout << v << " " << p << " " << m << " " << d << " " << dp << std::endl;
  }
}
