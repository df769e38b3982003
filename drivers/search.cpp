// searching for touches
#include "drv.h"
#include "common.h"
#include <ringing/basic_search.h>
#include <ringing/table_search.h>
#include <ringing/touch.h>
#include <ringing/group.h>
#include <ringing/method.h>
#include <ringing/pointers.h>
#include <memory>
using namespace ringing;
using std::string; using std::vector;

struct Stop { int* left; bool operator()(touch const&) { return --*left <= 0; } };
struct Rec {
  typedef std::output_iterator_tag iterator_category; typedef void value_type, difference_type, pointer, reference;
  Out* o;
  Rec& operator*() { return *this; } Rec& operator++() { return *this; } Rec operator++(int) { return *this; }
  Rec& operator=(touch const& t) {
    string s; 
    for (touch::const_iterator i = t.begin(), e = t.end(); i != e; ++i) { if (s.size()) s += '.'; s += (*i).print(); }
    string s2; touch::const_iterator i = t.begin(), e = t.end();
    for (; !(i == e); i++) { if (s2.size()) s2 += '.'; s2 += i->print(); }
    *o << (s == s2 ? s : "iteration differs");
    return *this;
  }
};
OP(search) {  // kind, bells, pn, calls, part end generators, flags, min, max, limit
  string k = a[1]; int n = I(a[2]); method m(a[3], n); vector<change> calls;
  for (string const& s : split(a[4], ' ')) calls.push_back(change(n, s));
  vector<row> g; for (string const& s : split(a[5], ' ')) g.push_back(mkrow(s));
  int f = I(a[6]), lim = I(a[9]); bool ranged = a[7] != "";
  std::pair<size_t, size_t> lr(strtoul(a[7].c_str(), 0, 10), a[8] == "" ? (size_t)-1 : strtoul(a[8].c_str(), 0, 10));
  std::unique_ptr<search_base> s;
  if (k == "basic") s.reset(ranged ? new basic_search(m, calls, lr, f & 1) : new basic_search(m, calls, f & 1));
  else if (k == "old") s.reset(ranged ? new table_search(m, calls, lr, bool(f & 1)) : new table_search(m, calls, bool(f & 1)));
  else {
    group P = g.empty() ? group() : group(g);
    if (g.empty()) P = group(row(n));
    s.reset(ranged ? new table_search(m, calls, P, lr, (table_search::flags)f) : new table_search(m, calls, P, (table_search::flags)f));
  }
  Rec r = { &o };
  if (lim > 0) { Stop st = { &lim }; touch_search_until(*s, r, st); }
  else { touch_search(*s, r); if (lim < 0) { o << "again"; touch_search(*s, r); } }
}
OP(touchtree) { // description: nested lists, e.g. "(2:12.34;1:(3:X))"
  string const& d = a[2]; int n = I(a[1]); size_t p = 0; touch t; vector<change> want;
  struct P { static touch_node* parse(string const& d, size_t& p, int n, touch& t) {
    if (d[p] == '(') {
      touch_child_list* l = new touch_child_list; t.push_back(l); ++p;
      while (d[p] != ')') {
        size_t e = d.find(':', p); int k = I(d.substr(p, e - p)); p = e + 1;
        l->push_back(k, parse(d, p, n, t));
        if (d[p] == ';') ++p;
      }
      ++p; return l;
    }
    touch_changes* c = new touch_changes; t.push_back(c);
    while (p < d.size() && d[p] != ';' && d[p] != ')') {
      if (d[p] == '.') { ++p; continue; }
      size_t e = d.find_first_of(".;)", p); c->push_back(change(n, d.substr(p, e - p))); p = e;
    }
    return c;
  } };
  t.set_head(P::parse(d, p, n, t));
  touch u(t); Rec r = { &o }; r = u;
  touch none; o << (none.begin() == none.end());
}
