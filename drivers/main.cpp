#include "drv.h"
#include <map>
#include <fstream>
#include <iostream>
#include <typeinfo>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>

static std::map<std::string, OpFn>& ops() { static std::map<std::string, OpFn> m; return m; }
Reg::Reg(char const* n, OpFn f) { ops()[n] = f; }

int I(std::string const& s) { return (int)strtol(s.c_str(), 0, 10); }

std::vector<std::string> split(std::string const& s, char sep) {
  std::vector<std::string> r; std::string cur;
  if (s.empty()) return r;
  for (char c : s) if (c == sep) { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);
  return r;
}

static std::string esc(std::string const& s) {
  std::string r; char b[8];
  for (unsigned char c : s) {
    if (c == '\\') r += "\\\\";
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
static std::string unesc(std::string const& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\') r += s[i];
    else if (s[i+1] == 'x') { r += (char)strtol(s.substr(i+2, 2).c_str(), 0, 16); i += 3; }
    else { r += s[i+1]; ++i; }
  }
  return r;
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (!in || fd < 0) { fprintf(stderr, "driver: cannot open files\n"); return 3; }
  std::string line;
  while (getline(in, line)) {
    Args a = split(line, '\t');
    for (auto& x : a) x = unesc(x);
    Out o;
    auto it = ops().find(a.empty() ? "" : a[0]);
    if (it == ops().end()) { fprintf(stderr, "driver: no operation %s\n", line.c_str()); return 3; }
    try { it->second(a, o); }
    catch (std::exception const& e) { o.f.clear(); o << "!E" << typeid(e).name() << e.what(); }
    catch (...) { o.f.clear(); o << "!E" << "unknown" << ""; }
    std::string res;
    for (size_t i = 0; i < o.f.size(); ++i) { if (i) res += '\t'; res += esc(o.f[i]); }
    res += '\n';
    size_t off = 0;
    while (off < res.size()) {
      ssize_t n = write(fd, res.data() + off, res.size() - off);
      if (n <= 0) return 4;
      off += n;
    }
  }
  return 0;
}
