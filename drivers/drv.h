// Driver core: one event per input line, one observation per output line.
#ifndef DRV_H
#define DRV_H
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>

typedef std::vector<std::string> Args;

struct Out {
  std::vector<std::string> f;
  template <class T> Out& operator<<(T const& t) {
    std::ostringstream os; os << t; f.push_back(os.str()); return *this;
  }
  Out& operator<<(std::string const& s) { f.push_back(s); return *this; }
  Out& operator<<(char const* s) { f.push_back(s); return *this; }
  Out& operator<<(bool b) { f.push_back(b ? "1" : "0"); return *this; }
};

typedef void (*OpFn)(Args const&, Out&);
struct Reg { Reg(char const* name, OpFn f); };

// a[0] is the operation name; arguments start at a[1].
#define OP(name) \
  static void op_##name(Args const& a, Out& o); \
  static Reg reg_##name(#name, op_##name); \
  static void op_##name(Args const& a, Out& o)

int I(std::string const& s);
std::vector<std::string> split(std::string const& s, char sep);
template <class C> std::string join(C const& c, char const* sep) {
  std::ostringstream os; bool first = true;
  for (auto const& x : c) { if (!first) os << sep; first = false; os << x; }
  return os.str();
}
// Calls f and returns its text, or "!exception" if it throws
template <class F> std::string guard(F f) {
  try { std::ostringstream os; os << f(); return os.str(); }
  catch (std::exception const&) { return "!exception"; }
}
#endif
