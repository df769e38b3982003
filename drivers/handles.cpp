// owning handles, and dimensions
#include "drv.h"
#include "common.h"
#include <ringing/pointers.h>
#include <ringing/dimension.h>
#include <set>
#include <memory>
#include <cstdlib>
using namespace ringing;
using std::string; using std::vector;

namespace {
struct World { std::set<int> live; int next = 0, bad = 0, custom = 0; bool throws = false; int clones = 0; };
World* W;
struct Obj {
  int id, val; 
  explicit Obj(int v) : id(W->next++), val(v) { W->live.insert(id); }
  Obj(Obj const& o) : id(W->next++), val(o.val) { W->live.insert(id); }
  virtual ~Obj() { if (!W->live.erase(id)) W->bad++; val = -77; }
  virtual Obj* clone() const { if (W->throws) { W->throws = false; throw std::runtime_error("no clone"); } W->clones++; return new Obj(*this); }
};
struct Derived : Obj { string s; explicit Derived(int v) : Obj(v), s(100, 'x') {} Obj* clone() const { if (W->throws) { W->throws = false; throw std::runtime_error("no clone"); } W->clones++; return new Derived(*this); } };
Obj* mk(int v) { return v % 2 ? (Obj*)new Derived(v) : new Obj(v); }
void custom_del(Obj*& o) { if (o) { W->custom++; delete o; } o = 0; }
Obj* custom_clone(Obj* o) { return o ? o->clone() : 0; }

template <class H> struct can { static const bool copy = true, release = false, write = false, deleter = false, cloner = false; };
template <> struct can<scoped_pointer<Obj> > { static const bool copy = false, release = true, deleter = true, cloner = false; };
template <> struct can<shared_pointer<Obj> > { static const bool copy = true, release = false, deleter = true, cloner = false; };
template <> struct can<cloning_pointer<Obj> > { static const bool copy = true, release = true, deleter = false, cloner = true; };
template <> struct can<cow_pointer<Obj> > { static const bool copy = true, release = false, deleter = false, cloner = false; };

template <class H> string run(Args const& a) {
  World w; W = &w; std::ostringstream os;
  {
    vector<std::unique_ptr<H> > s(5);
    for (auto& p : s) p.reset(new H);
    for (size_t q = 2; q < a.size(); ++q) {
      vector<string> f = split(a[q], ' '); string const& op = f[0]; int i = I(f[1]), j = f.size() > 2 ? I(f[2]) : 0;
      string note;
      try {
        if (op == "make") { s[i].reset(); s[i].reset(new H(mk(j))); }
        else if (op == "null") { s[i].reset(); s[i].reset(new H((Obj*)0)); }
        else if (op == "end") { s[i].reset(); s[i].reset(new H); }
        else if (op == "reset") s[i]->reset();
        else if (op == "renew") s[i]->reset(mk(j));
        else if (op == "write") (**s[i]).val = j;
        else if (op == "bump") (*s[i])->val += j;
        else if (op == "get") { Obj* p = s[i]->get(); if (p) p->val = j; }
        else if (op == "throwing") w.throws = true;
        else if (op == "cmp") {
          H const& x = *s[i]; H const& y = *s[j]; Obj const* p = const_cast<H const&>(x).get(); Obj const* r = y.get();
          bool okc = (x == y) == (p == r) && (x != y) == (p != r) && (x < y) == (p < r) && (x > y) == (p > r) && (x <= y) == (p <= r) && (x >= y) == (p >= r);
          note = okc ? "" : "comparison"; note += x == y ? "=" : "#";
        }
        if constexpr (can<H>::copy) {
          if (op == "copy") { std::unique_ptr<H> n(new H(*s[j])); s[i] = std::move(n); }
          else if (op == "assign") *s[i] = *s[j];
          else if (op == "swap") s[i]->swap(*s[j]);
        }
        if constexpr (!can<H>::release && can<H>::copy) if (op == "same") { H const& c = *s[i]; s[i]->reset(const_cast<Obj*>(c.get())); }
        if constexpr (can<H>::release) if (op == "release") { Obj* p = s[i]->release(); note = p ? "got " + std::to_string(p->val) : "got none"; if (j) delete p; else s[4]->reset(p); }
        if constexpr (can<H>::deleter) if (op == "cmake") { s[i].reset(); s[i].reset(new H(mk(j), custom_del)); }
        if constexpr (can<H>::cloner) if (op == "cmake") { s[i].reset(); s[i].reset(new H(mk(j), custom_del, custom_clone)); }
      } catch (std::runtime_error const&) { note = "threw"; }
      if (op != "throwing") w.throws = false;
      os << (q > 2 ? ";" : "") << note << "|";
      for (int k = 0; k < 5; ++k) {
        H const& h = *s[k]; if (k) os << ",";
        if (!h) os << "-"; else os << h->val;
        if (bool(h) != (h.get() != 0) || (h && &*h != h.get())) os << "!";
      }
      os << "|" << w.live.size() << "|" << w.bad << "|" << w.custom;
    }
  }
  os << ";end|" << w.live.size() << "|" << w.bad << "|" << w.custom;
  W = 0;
  return os.str();
}
}
OP(handles) {
  string const& k = a[1];
  o << (k == "scoped" ? run<scoped_pointer<Obj> >(a) : k == "shared" ? run<shared_pointer<Obj> >(a) : k == "cloning" ? run<cloning_pointer<Obj> >(a) : run<cow_pointer<Obj> >(a));
}
static void dim(dimension const& d, Out& o) { std::ostringstream os; os.precision(9); os << d.in_points(); o << d.n << d.d << (int)d.u << os.str(); }
OP(dimread) { // text, previous value n d u
  dimension d(I(a[2]), I(a[3]), (dimension::units)I(a[4]));
  try { if (I(a[5])) d.read(a[1]); else d.read(a[1].c_str()); } catch (dimension::bad_format const&) { o << "rejected"; dim(d, o); return; }
  dim(d, o); std::ostringstream os; os << d; o << os.str(); string w; string& r = d.write(w); o << w << (&r == &w);
  dimension e(5, 7, dimension::mm);
  try { e.read(os.str()); dim(e, o); } catch (dimension::bad_format const&) { o << "unreadable"; return; }
  try { e.read(w.c_str()); dim(e, o); } catch (dimension::bad_format const&) { o << "unreadable"; }
}
OP(dimops) { // n d u, then operations
  dimension d(I(a[1]), I(a[2]), (dimension::units)I(a[3]));
  if (a[4] == "i") d = dimension(I(a[1]));
  for (size_t q = 5; q < a.size(); ++q) {
    vector<string> f = split(a[q], ' '); int k = f.size() > 1 ? I(f[1]) : 0;
    if (f[0] == "*") { dimension e = d * k; d *= k; if (e.n != d.n || e.d != d.d || e.u != d.u) o << "differs"; }
    else if (f[0] == "/") { dimension e = d / k; d /= k; if (e.n != d.n || e.d != d.d || e.u != d.u) o << "differs"; }
    else if (f[0] == "-") d = -d;
    else if (f[0] == "r") d.reduce();
    else if (f[0] == "f") d.set_float(strtof(f[1].c_str(), 0), I(f[2]), (dimension::units)I(f[3]));
    else if (f[0] == "=") o << (d == k) << (d != k);
    dim(d, o);
  }
  std::ostringstream os; os << d; o << os.str();
  dimension e;
  try { e.read(os.str()); dim(e, o); } catch (dimension::bad_format const&) { o << "unreadable"; }
}
