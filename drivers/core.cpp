// bells, rows, changes, place notation, methods
#include "drv.h"
#include <ringing/bell.h>
#include <ringing/row.h>
#include <ringing/change.h>
#include <ringing/method.h>
#include <ringing/place_notation.h>
#include <ringing/mathutils.h>
#include <ringing/lexical_cast.h>
#include <ringing/extent.h>
#include <iterator>
#include <sstream>
#include <map>
#include <set>
using namespace ringing;
using std::string; using std::vector;

// Rows are given to and reported by the driver as comma separated 0-based bells
row mkrow(string const& s) {
  vector<bell> v;
  for (string const& x : split(s, ',')) v.push_back(bell(I(x)));
  return row(v);
}
string rowstr(row const& r) {
  string s;
  for (int i = 0; i < r.bells(); ++i) { if (i) s += ','; s += std::to_string((int)r[i]); }
  return s;
}
string chstr(change const& c) {  // n:swaps, as observed through findswap
  string s = std::to_string(c.bells()) + ":"; bool first = true;
  for (int i = 0; i + 1 < c.bells(); ++i)
    if (c.findswap(i)) { if (!first) s += ','; first = false; s += std::to_string(i); }
  return s;
}

OP(row_text) { o << rowstr(row(a[1])); }
OP(row_assign_text) {
  row r(mkrow(a[1])); string res;
  try { r = a[2]; res = "ok"; } catch (std::exception const&) { res = "!"; }
  o << res << rowstr(r);
}
OP(row_vec) { o << rowstr(mkrow(a[1])); }
OP(row_vec_swap) {  // swap with a vector of bells, validated
  vector<bell> v;
  for (string const& x : split(a[1], ',')) v.push_back(bell(I(x)));
  row r; r.swap(v); o << rowstr(r);
}
OP(row_print) { row r(mkrow(a[1])); std::ostringstream os; os << r; o << r.print() << os.str(); }
OP(row_bin) {
  row x(mkrow(a[1])), y(mkrow(a[2]));
  o << rowstr(x*y) << rowstr(x/y);
  row z(x); z *= y; o << rowstr(z);
  z = x; z /= y; o << rowstr(z);
  z = x; z *= z; o << rowstr(z);
  z = x; z /= z; o << rowstr(z);
  o << rowstr(x.conjugate(y)) << (x == y) << (x != y) << (x < y) << (x > y) << (x <= y) << (x >= y)
    << (x.hash() == y.hash()) << are_conjugate(x, y) << rowstr(conjugator(x, y));
}
OP(row_un) {
  row x(mkrow(a[1]));
  o << rowstr(x.inverse()) << x.sign() << x.order() << (int)x.num_cycles() << x.cycles()
    << x.isrounds() << x.bells();
  string cs, fs;
  for (int i = 0; i < x.bells(); ++i) {
    if (i) { cs += ','; fs += ','; }
    cs += std::to_string(x.cycle_size(i)); fs += std::to_string(x.find(bell(i)));
  }
  o << cs << fs << (int)x.ispblh();
  string ps;
  for (int h = 0; h < x.bells(); ++h) { if (h) ps += ','; ps += std::to_string(x.ispblh(h)); }
  o << ps;
}
OP(row_pow) {
  row x(mkrow(a[1])); string s;
  for (size_t i = 2; i < a.size(); ++i) o << rowstr(x.power(I(a[i])));
}
OP(row_named) {
  int n = I(a[2]);
  string const& w = a[1];
  row r;
  if (w == "rounds") r = row::rounds(n);
  else if (w == "queens") r = row::queens(n);
  else if (w == "kings") r = row::kings(n);
  else if (w == "tittums") r = row::tittums(n);
  else if (w == "reverse") r = row::reverse_rounds(n);
  else if (w == "reverse3") r = row::reverse_rounds(n, I(a[3]), I(a[4]));
  else if (w == "cyclic") r = row::cyclic(n, I(a[3]), I(a[4]));
  else if (w == "pblh") r = row::pblh(n, I(a[3]));
  o << rowstr(r);
}
OP(row_change) {  // row, n, pn : row * change both ways, and change on each position
  row r(mkrow(a[1])); change c(I(a[2]), a[3]);
  o << rowstr(r * c); row s(r); s *= c; o << rowstr(s);
}
OP(row_edit) {  // a sequence of edits to a row
  row r(mkrow(a[1]));
  for (size_t i = 2; i < a.size(); ++i) {
    vector<string> f = split(a[i], ' ');
    string res = "ok";
    try {
      if (f[0] == "resize") r.resize(I(f[1]));
      else if (f[0] == "swap") r.swap(I(f[1]), I(f[2]));
      else if (f[0] == "rounds") r.rounds();
      else if (f[0] == "mul") r *= mkrow(f[1]);
      else if (f[0] == "div") r /= mkrow(f[1]);
      else if (f[0] == "ch") r *= change(I(f[1]), f[2]);
      else if (f[0] == "self") { row& q = r; r = q; }
      else if (f[0] == "swaprow") { row t(mkrow(f[1])); r.swap(t); }
    } catch (std::exception const&) { res = "!"; }
    o << res + rowstr(r);
  }
}
OP(row_block) {  // n, flags, start row or "", changes...
  int n = I(a[1]), fl = I(a[2]);
  vector<change> cs;
  for (size_t i = 4; i < a.size(); ++i) cs.push_back(change(n, a[i]));
  if (a[3] == "-") { ringing::row_block b(cs, fl); for (row const& r : b) o << rowstr(r); }
  else {
    ringing::row_block b(cs, mkrow(a[3]), fl); for (row const& r : b) o << rowstr(r);
  }
}
OP(row_block_re) {  // n, start1, start2, changes...
  int n = I(a[1]);
  vector<change> cs;
  for (size_t i = 4; i < a.size(); ++i) cs.push_back(change(n, a[i]));
  ringing::row_block b(cs, mkrow(a[2]));
  b.set_start(mkrow(a[3])); b.recalculate();
  for (row const& r : b) o << rowstr(r);
}
OP(row_permuters) {  // n, row, sequence of rows: the four functional permuters
  int n = I(a[1]); row r0(mkrow(a[2]));
  permuter p(n); post_permuter q(n); row r1(r0), r2(r0); row_permuter rp(r1); row_post_permuter rq(r2);
  for (size_t i = 3; i < a.size(); ++i) {
    row x(mkrow(a[i]));
    o << rowstr(p(x)) << rowstr(q(x)) << rowstr(rp(x)) << rowstr(rq(x));
  }
  o << rowstr(p.get()) << rowstr(q.get()) << rowstr(r1) << rowstr(r2);
}

// ------------------------------------------------------------- bells & streams
struct Syms {  // installs a symbol table for one event
  string keep;
  Syms(string const& s) : keep(s) { if (s.size()) bell::set_symbols(keep.c_str()); }
  ~Syms() { bell::set_symbols(NULL); }
};
OP(bell_char) {  // symbols, character code
  Syms sy(a[1]); char c = (char)I(a[2]);
  o << bell::is_symbol(c);
  try { bell b = bell::read_char(c); o << "ok" << (int)b << string(1, b.to_char()); }
  catch (bell::invalid const&) { o << "!" << "" << ""; }
}
OP(bell_ext) {  // text: extended read from start of text
  char const* s = a[1].c_str(); char const* e = s;
  try { bell b = bell::read_extended(s, &e); o << "ok" << (int)b << (int)(e - s); }
  catch (bell::invalid const&) { o << "!" << "" << ""; }
}
OP(bell_print) { Syms sy(a[1]); std::ostringstream os; os << bell(I(a[2])); o << os.str(); }
template <class T, class F> void extract(string const& txt, int fl, T v, F str, Out& o) {
  std::istringstream is(txt);
  if (fl & 1) is.unsetf(std::ios::skipws);
  is >> v;
  o << str(v) << (bool)is.fail() << (bool)is.eof();
  is.clear();
  string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  o << rest;
}
OP(row_stream) { Syms sy(a[1]); extract(a[2], I(a[3]), mkrow(a[4]), rowstr, o); }
OP(bell_stream) { Syms sy(a[1]); extract(a[2], I(a[3]), bell(I(a[4])), [](bell b){ return std::to_string((int)b); }, o); }
OP(rows_stream) {  // read as many rows as possible
  Syms sy(a[1]); std::istringstream is(a[2]); row r;
  while (is >> r) o << rowstr(r);
}
OP(row_rt) {  // symbols, row: text out and back in
  Syms sy(a[1]); row r(mkrow(a[2]));
  std::ostringstream os; os << r; o << os.str();
  o << guard([&]{ return rowstr(row(os.str())); });
  std::istringstream is(os.str()); row q; is >> q; o << rowstr(q) << (bool)is.fail();
  o << guard([&]{ return rowstr(lexical_cast<row>(os.str())); });
}
OP(change_rt) {
  Syms sy(a[1]); change c(I(a[2]));
  for (size_t i = 3; i < a.size(); ++i) c.swappair(I(a[i]));
  for (int f : { 0, (int)change::C_UCROSS, (int)change::C_LCROSS, (int)change::C_DASH }) {
    string t = c.print(f); o << t << guard([&]{ return chstr(change(c.bells(), t)); });
  }
  std::ostringstream os; os << c; o << os.str();
}

// ------------------------------------------------------------- changes
void describe(change const& c, Out& o) {
  int n = c.bells(); string pl, fp, bm; std::ostringstream os;
  o << chstr(c) << c.print();
  for (bell b : c.places()) { if (pl.size()) pl += ','; pl += std::to_string((int)b); }
  for (int i = 0; i < n; ++i) {
    fp += c.findplace(i) ? '1' : '0';
    bell b(i); bell d = b * c; b *= c;
    if (i) bm += ','; bm += std::to_string((int)b);
    if (d != b) bm += "!";
  }
  row r = row(n) * c;
  o << pl << fp << bm << c.sign() << c.count_places() << c.internal() << rowstr(r) << chstr(c.reverse());
}
OP(change_text) { change c(I(a[1]), a[2]); describe(c, o); }
OP(change_places) {
  vector<bell> v; for (string const& x : split(a[2], ',')) v.push_back(bell(I(x)));
  change c(I(a[1]), v); describe(c, o);
}
OP(change_set) {
  change c(I(a[1]), a[2]); string res = "ok";
  try { c.set(I(a[3]), a[4]); } catch (std::exception const&) { res = "!"; }
  o << res << chstr(c);
}
OP(change_edits) {  // n, initial pn or "", pairs to toggle...
  change c(I(a[1])); if (a[2].size()) c = change(I(a[1]), a[2]);
  for (size_t i = 3; i < a.size(); ++i) {
    string res;
    try { res = c.swappair(I(a[i])) ? "1" : "0"; }
    catch (change::out_of_range const&) { res = "!"; }
    o << res + " " + chstr(c);
  }
  describe(c, o);
}
OP(change_cmp) {
  change x(I(a[1]), a[2]), y(I(a[3]), a[4]);
  o << (x == y) << (x != y) << (x < y) << (x > y) << (x <= y) << (x >= y)
    << guard([&]{ return have_same_places(x, y); });
  x.swap(y); o << chstr(x) << chstr(y);
}

// ------------------------------------------------------------- place notation & methods
OP(pn) {
  method m(a[2], I(a[1]));
  o << m.bells() << m.length();
  for (change const& c : m) o << chstr(c);
}
OP(pn_iter) {  // through the iterator interface, several output kinds
  vector<change> v; interpret_pn(I(a[1]), a[2].begin(), a[2].end(), std::back_inserter(v));
  o << (int)v.size(); for (change const& c : v) o << chstr(c);
}
method mkmethod(int n, string const& pn) { return method(pn, n); }
OP(format) {  // n, pn, flags... : each formatted text and its re-expansion
  int n = I(a[1]); method m(a[2], n);
  for (size_t i = 3; i < a.size(); ++i) {
    string t = m.format(I(a[i])); o << t;
    o << guard([&]{ string r; method k(t, n); for (change const& c : k) { if (r.size()) r += ' '; r += chstr(c); } return r; });
  }
}
OP(meth_info) {
  int n = I(a[1]); method m(a[2], n);
  o << m.bells() << m.length() << rowstr(m.lh()) << m.leads() << m.huntbells()
    << m.maxblows() << m.issym() << m.ispalindromic() << m.isdouble() << m.isregular()
    << m.symmetry_point() << string(m.lhcode());
  string pal; for (int i = 0; i < m.length(); ++i) pal += m.is_palindromic_about(i) ? '1' : '0';
  o << pal;
  string bs, bp, bd, bi, sp, bpa;
  for (int b = 0; b < n; ++b) {
    bs += m.issym(bell(b)) ? '1' : '0';
    bp += m.isplain(bell(b)) ? '1' : '0';
    bd += m.hasdodges(bell(b)) ? '1' : '0';
    bi += m.hasplaces(bell(b)) ? '1' : '0';
    if (b) sp += ','; sp += std::to_string(m.symmetry_point(bell(b)));
    if (b) bpa += ','; for (int i = 0; i < m.length(); ++i) bpa += m.is_palindromic_about(bell(b), i) ? '1' : '0';
    o.f.size();
  }
  o << bs << bp << bd << bi << sp << bpa;
}
OP(meth_class) {
  int n = I(a[1]); method m(a[2], n, a[3]);
  vector<change> before(m);
  o << m.methclass() << m.fullname() << string(m.name());
  o << (before == static_cast<vector<change> const&>(m));
  for (size_t i = 4; i < a.size(); ++i) o << m.methclass(I(a[i])) << m.fullname(I(a[i]));
}
OP(stage) { o << string(method::stagename(I(a[1]))); }
OP(classname) { o << method::classname(I(a[1])); }
OP(meth_edit) {  // push_back of changes and texts; swap; copy
  method m; int n = I(a[1]); if (n) m = method(0, n);
  for (size_t i = 2; i < a.size(); ++i) {
    vector<string> f = split(a[i], ' ');
    if (f[0] == "c") m.push_back(change(I(f[1]), f[2]));
    else m.push_back(f[1]);
  }
  method k; k.name("other"); k.swap(m);
  o << m.length() << string(m.name()) << k.bells() << k.length();
  for (change const& c : k) o << chstr(c);
}
