// save the FSMs of patterns as C++ code
// stdin, tab separated: id regex(hex) pattern-options kind(t table, f code; p with prediction data) file
#include <reflex/pattern.h>
#include <iostream>
#include <sstream>
#include <vector>
static std::string unhex(const std::string& h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(std::stoi(h.substr(i, 2), 0, 16));
  return s;
}
int main()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> a; std::string t; std::istringstream is(line);
    while (std::getline(is, t, '\t')) a.push_back(t);
    try
    {
      reflex::Pattern p(unhex(a[1]), "r;" + a[2] + (a[3].find('f') != std::string::npos ? ";o" : "") + (a[3].find('p') != std::string::npos ? ";p" : "") + ";n=x" + a[0] + ";f=" + a[4]);
      std::cout << a[0] << " 0\n";
    }
    catch (const reflex::regex_error& e) { std::cout << a[0] << " " << e.code() << "\n"; }
  }
  return 0;
}
