// Input driver: reads an input source through the public reflex::Input interface and records every call.
// stdin, one session per line, tab separated: id kind wrap enc set page off F(hex; kind w: comma list of units) ops
// kind: c char*+len | s std::string | z NUL-terminated char* | w wchar_t* | W std::wstring | f regular FILE | m fmemopen | q pipe | n non-blocking FILE with handler | i istream
// wrap: I Input | B BufferedInput | S Input::streambuf | T BufferedInput::streambuf | D Input::dos_streambuf | E BufferedInput::dos_streambuf
// ops: g<n> c p s e x (copy, continue with the copy) a (assign, continue with the copy)
#include <reflex/input.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
using reflex::Input;
using reflex::BufferedInput;
static std::vector<std::string> split(const std::string& s, char d)
{
  std::vector<std::string> v; std::string t; std::istringstream is(s);
  while (std::getline(is, t, d)) v.push_back(t);
  return v;
}
struct NB { std::string d; size_t p; int t; };
static ssize_t nbread(void *c, char *b, size_t n)
{
  NB *x = static_cast<NB*>(c);
  // every other read fails, except for the bytes of a byte order mark
  if (x->p >= 4 && x->p < x->d.size() && (x->t++ & 1)) { errno = EAGAIN; return -1; }
  size_t k = x->d.size() - x->p;
  size_t m = x->p < 4 ? 4 - x->p : 1 + (x->p * 7) % 5;
  if (k > m) k = m;
  if (k > n) k = n;
  memcpy(b, x->d.data() + x->p, k);
  x->p += k;
  return k;
}
struct Retry : public Input::Handler { FILE *f; int n; int operator()() { ++n; clearerr(f); return n < 10000; } };
static unsigned short custom[256];
static std::string bytes(const std::string& s)
{
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
template<class R> static void run(R& in, const std::vector<std::string>& ops, std::string& out)
{
  std::unique_ptr<R> own;
  R *p = &in;
  for (auto& o : ops)
  {
    if (!out.empty()) out += ",";
    if (o[0] == 'g')
    {
      size_t n = atoi(o.c_str() + 1);
      std::vector<char> b(n + 1, 0x55);
      size_t k = p->get(b.data(), n);
      if (k > n) k = n;
      out += "{\"o\":\"g\",\"n\":" + std::to_string(n) + ",\"x\":" + bytes(std::string(b.data(), k)) + "}";
    }
    else if (o[0] == 'c') out += "{\"o\":\"c\",\"r\":" + std::to_string(p->get()) + "}";
    else if (o[0] == 's') out += "{\"o\":\"s\",\"r\":" + std::to_string(p->size()) + "}";
    else if (o[0] == 'e') { int r = p->eof(), g = p->good(); out += "{\"o\":\"e\",\"r\":" + std::to_string(r) + ",\"g\":" + std::to_string(g) + "}"; }
    else if (o[0] == 'x') { R *q = new R(*p); own.reset(q); p = q; out += "{\"o\":\"x\"}"; }
    else if (o[0] == 'a') { R *q = new R(); *q = *p; own.reset(q); p = q; out += "{\"o\":\"a\"}"; }
    else out += "{\"o\":\"-\"}";
  }
}
static void runs(std::streambuf& sb, const std::vector<std::string>& ops, std::string& out)
{
  for (auto& o : ops)
  {
    if (!out.empty()) out += ",";
    if (o[0] == 'g')
    {
      size_t n = atoi(o.c_str() + 1);
      std::vector<char> b(n + 1, 0x55);
      std::streamsize k = sb.sgetn(b.data(), n);
      if (k < 0) k = 0;
      if ((size_t)k > n) k = n;
      out += "{\"o\":\"g\",\"n\":" + std::to_string(n) + ",\"x\":" + bytes(std::string(b.data(), k)) + "}";
    }
    else if (o[0] == 'c') out += "{\"o\":\"c\",\"r\":" + std::to_string(sb.sbumpc()) + "}";
    else if (o[0] == 'p') out += "{\"o\":\"p\",\"r\":" + std::to_string(sb.sgetc()) + "}";
    else out += "{\"o\":\"-\"}";
  }
}
int main()
{
  for (int i = 0; i < 256; ++i) custom[i] = (i * 157 + i * i * 3 + 1) % 0xD800;
  if (getenv("DUMP_PAGES")) { return 0; }
  std::string line;
  std::ios::sync_with_stdio(false);
  while (std::getline(std::cin, line))
  {
    std::vector<std::string> f = split(line, '\t');
    f.resize(9);
    char kind = f[1][0], wrap = f[2][0];
    int enc = atoi(f[3].c_str()), set = atoi(f[4].c_str());
    size_t off = atoi(f[6].c_str());
    std::string F; std::wstring W;
    if (kind == 'w' || kind == 'W')
      for (auto& u : split(f[7], ',')) W += static_cast<wchar_t>(std::stol(u));
    else
      for (size_t i = 0; i + 1 < f[7].size(); i += 2) F += static_cast<char>(std::stoi(f[7].substr(i, 2), 0, 16));
    std::vector<std::string> ops = split(f[8], ' ');
    FILE *fp = NULL;
    NB nb; Retry retry;
    std::istringstream is;
    std::unique_ptr<Input> in;
    switch (kind)
    {
      case 'c': in.reset(new Input(F.data(), F.size())); break;
      case 's': in.reset(new Input(F)); break;
      case 'z': in.reset(new Input(F.c_str())); break;
      case 'w': in.reset(new Input(W.c_str())); break;
      case 'W': in.reset(new Input(W)); break;
      case 'i': is.str(F); in.reset(new Input(is)); break;
      case 'f':
      {
        int fd = memfd_create("inp", 0);
        if (write(fd, F.data(), F.size()) != (ssize_t)F.size()) abort();
        lseek(fd, 0, SEEK_SET);
        fp = fdopen(fd, "rb");
        break;
      }
      case 'm': fp = fmemopen(const_cast<char*>(F.data()), F.size(), "rb"); break;
      case 'q':
      {
        int fd[2];
        if (pipe(fd)) abort();
        if (write(fd[1], F.data(), F.size()) != (ssize_t)F.size()) abort();
        close(fd[1]);
        fp = fdopen(fd[0], "rb");
        break;
      }
      case 'n':
      {
        nb.d = F; nb.p = 0; nb.t = 0;
        cookie_io_functions_t io = { nbread, NULL, NULL, NULL };
        fp = fopencookie(&nb, "rb", io);
        break;
      }
    }
    if (kind == 'f' || kind == 'm' || kind == 'q' || kind == 'n')
    {
      if (!fp) { std::cout << "{\"id\":" << f[0] << ",\"ev\":[]}\n"; continue; }
      for (size_t i = 0; i < off; ++i) fgetc(fp);
      if (enc != 0) in.reset(new Input(fp, enc, enc == 38 ? custom : NULL));
      else in.reset(new Input(fp));
      if (kind == 'n') { retry.f = fp; retry.n = 0; in->set_handler(&retry); }
      if (set >= 0) in->file_encoding(set, set == 38 ? custom : NULL);
    }
    std::string out;
    switch (wrap)
    {
      case 'I': run(*in, ops, out); break;
      case 'B':
      {
        // peek is in BufferedInput only
        std::unique_ptr<BufferedInput> b(new BufferedInput(*in));
        std::vector<std::string> seg;
        for (auto& o : ops)
        {
          if (o[0] == 'p') { run(*b, seg, out); seg.clear(); if (!out.empty()) out += ","; out += "{\"o\":\"p\",\"r\":" + std::to_string(b->peek()) + "}"; }
          else if (o[0] == 'x') { run(*b, seg, out); seg.clear(); b.reset(new BufferedInput(*b)); if (!out.empty()) out += ","; out += "{\"o\":\"x\"}"; }
          else if (o[0] == 'a') { run(*b, seg, out); seg.clear(); std::unique_ptr<BufferedInput> n(new BufferedInput()); *n = *b; b.swap(n); if (!out.empty()) out += ","; out += "{\"o\":\"a\"}"; }
          else seg.push_back(o);
        }
        run(*b, seg, out);
        break;
      }
      case 'S': { Input::streambuf sb(*in); runs(sb, ops, out); break; }
      case 'D': { Input::dos_streambuf sb(*in); runs(sb, ops, out); break; }
      case 'T': { BufferedInput::streambuf sb(*in); runs(sb, ops, out); break; }
      case 'E': { BufferedInput::dos_streambuf sb(*in); runs(sb, ops, out); break; }
    }
    if (fp) fclose(fp);
    std::cout << "{\"id\":" << f[0] << ",\"ev\":[" << out << "]}" << std::endl;
  }
}
