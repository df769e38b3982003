// hostile text for every parser, and histories of copies, assignments and swaps of every value type
#include "drv.h"
#include "common.h"
#include <ringing/method.h>
#include <ringing/place_notation.h>
#include <ringing/extent.h>
#include <ringing/group.h>
#include <ringing/multtab.h>
#include <ringing/falseness.h>
#include <ringing/music.h>
#include <ringing/row_wildcard.h>
#include <ringing/dimension.h>
#include <ringing/proof.h>
#include <ringing/peal.h>
#include <ringing/touch.h>
#include <ringing/library.h>
#include <ringing/litelib.h>
#include <ringing/libout.h>
#include <ringing/methodset.h>
#include <ringing/method_stream.h>
#include <ringing/lexical_cast.h>
#include <ringing/streamutils.h>
#include <ringing/print.h>
#include <ringing/mathutils.h>
#include <memory>
#include <sstream>
#include <iterator>
#include <algorithm>
#include <list>
using namespace ringing;
using std::string; using std::vector;

static string methstr(method const& m) {
  std::ostringstream os; os << m.bells() << ':';
  for (change const& c : m) os << chstr(c) << '.';
  os << m.name(); return os.str();
}
static string rows(vector<row> const& v) { string s; for (row const& r : v) s += rowstr(r) + ' '; return s; }
static music_details const* md;

OP(text) {   // kind, text, number
  string const& k = a[1]; string const& t = a[2]; int n = I(a[3]);
  try {
    if (k == "row") o << rowstr(row(t));
    else if (k == "rowc") { row r(t.c_str()); o << rowstr(r) << rowstr(r.inverse()) << r.isrounds() << r.order() << r.cycles() << rowstr(r * r); }
    else if (k == "rows") { std::istringstream is(t); row r; int c = 0; while (c < 10000 && is >> r) { ++c; o << rowstr(r); } o << is.eof() << is.bad(); }
    else if (k == "bells") { std::istringstream is(t); bell b; int c = 0; while (c < 10000 && is >> b) { ++c; o << (int)b; } o << is.eof(); }
    else if (k == "bellext") { char const* p = t.c_str(); int c = 0; while (*p && c++ < 10000) { char const* q = p; bell b = bell::read_extended(p, &q); o << (int)b << (int)(q - p); if (q <= p) break; p = q; } }
    else if (k == "change") { change c(n, t); o << chstr(c) << c.bells() << c.sign() << c.count_places() << c.internal() << chstr(c.reverse()); }
    else if (k == "changes") { std::istringstream is(t); string w; change c(n); while (is >> w) { c.set(n, w); o << chstr(c); } }
    else if (k == "pn") { vector<change> v; interpret_pn(n, t.begin(), t.end(), std::back_inserter(v)); for (change const& c : v) o << chstr(c); }
    else if (k == "method") {
      method m(t, n); o << methstr(m) << m.length() << m.leads() << m.isdouble() << m.issym() << m.isplain() << m.methclass();
      if (m.size()) o << m.classname(m.methclass()) << m.fullname() << rowstr(m.lh()) << (m.bells() > 1 ? string(m.lhcode()) : "") << m.format(n % 256) << m.maxblows();
    }
    else if (k == "push") { method m(n); std::istringstream is(t); string w; while (is >> w) m.push_back(w); o << methstr(m); }
    else if (k == "wild") { row_wildcard w(t); o << w.count(n); }
    else if (k == "music") {
      music m(n); m.push_back(music_details(t, 3, 2)); row r(n); for (int i = 0; i < 20; ++i) { o << m.process_row(r, i % 2); r *= change(n, i % 2 ? "1" : "X"); }
      o << m.get_score() << m.get_count() << m.get_possible_score();
      for (music_details const& d : m) { string s; for (bell b : d.last_wildcard_matches()) s += std::to_string((int)b) + ","; o << s << d.possible_matches(n); }
    }
    else if (k == "scored") { music m(n); m.add_scored_music_string(t); o << m.size() << m.get_possible_score(); for (music_details const& d : m) o << d.get() << d.total(); }
    else if (k == "named") { music m(n); m.add_named_music(t, 2, 3); o << m.size(); for (music_details const& d : m) o << d.get(); }
    else if (k == "dim") { dimension d(3); try { d.read(t); } catch (dimension::bad_format const&) { o << "rejected"; return; } std::ostringstream os; os << d; o << os.str() << d.in_points(); }
    else if (k == "int") o << lexical_cast<int>(t);
    else if (k == "size") o << lexical_cast<size_t>(t);
    else if (k == "char") o << (int)lexical_cast<char>(t);
    else if (k == "double") o << lexical_cast<double>(t);
    else if (k == "bool") o << lexical_cast<bool>(t);
    else if (k == "str") o << lexical_cast<string>(t);
    else if (k == "entry") {   // one line of a list of methods
      std::istringstream is(t); litelib l(n, is); library ll = l; int c = 0;
      for (library::const_iterator i = ll.begin(), e = ll.end(); i != e && c < 1000; ++i, ++c) o << i->name() << i->base_name() << i->fullname() << i->bells() << i->pn() << methstr(i->meth());
    }
    else if (k == "make") o << string(make_string() << t << n);
    else o << "?";
  } catch (std::exception const& e) { o << "!" << e.what(); }
}

namespace {
template <class T> struct Tr;
template <class T> void swp(T& x, T& y) { using std::swap; swap(x, y); }
#define TR(T, MK, MUT, SHOW) template <> struct Tr<T> { \
  static T* mk(string const& t, int n) { (void)t; (void)n; return MK; } \
  static void mut(T& x, string const& t, int n) { (void)t; (void)n; MUT; } \
  static string show(T const& x) { std::ostringstream os; SHOW; return os.str(); } }

typedef vector<row> RV;
TR(row, new row(t), { if (n % 3 == 0) x *= row(t); else if (n % 3 == 1) x = x.inverse(); else x *= change(x.bells(), x.bells() % 2 ? "1" : "X"); }, os << rowstr(x));
TR(change, new change(n, t), { if (x.bells() < 2) throw std::runtime_error("small"); x.swappair(n % (x.bells() - 1)); }, os << chstr(x) << x.bells());
TR(method, new method(t, n, "A" + t), { if (n % 2) x.push_back(t); else x.name(t); }, os << methstr(x));
TR(group, new group(row(t)), { row rr(t); group y(rr); if (n % 2) { x = group::direct_product(x, y); } else x = x.conjugate(rr); if (x.size() > 500) x = y; }, { os << x.bells() << ':' << rows(RV(x.begin(), x.end())); });
TR(extent_iterator, n % 2 ? new extent_iterator(3 + n % 4) : new extent_iterator(3 + n % 3, 2), { if (n % 2) { if (x != extent_iterator()) ++x; } else if (x != extent_iterator()) { ++x; --x; ++x; } },
   { if (x == extent_iterator()) os << "end"; else os << rowstr(*x); });
TR(incourse_extent_iterator, new incourse_extent_iterator(3 + n % 4), { if (x != incourse_extent_iterator()) ++x; }, { if (x == incourse_extent_iterator()) os << "end"; else os << rowstr(*x); });
TR(changes_iterator, new changes_iterator(2 + n % 9), { if (x != changes_iterator()) ++x; }, { if (x == changes_iterator()) os << "end"; else os << chstr(*x); });
TR(music, ([&] { std::unique_ptr<music> m(new music(n)); m->push_back(music_details(t, 2, 3)); return m.release(); })(),
   { if (n % 3 == 0) x.push_back(music_details(t)); else if (n % 3 == 1) { row r(x.bells()); r *= change(x.bells(), n % 2 ? "1" : "12"); x.process_row(r, n & 1); } else x.reset_music(); },
   { os << x.bells() << ' ' << x.size() << ' ' << x.get_count() << ' ' << x.get_score(); for (music_details const& d : x) os << ';' << d.get() << ' ' << d.count() << ' ' << d.total(); });
TR(music_details, new music_details(t, n, 2), x.set(t, n, 3), os << x.get() << ' ' << x.count() << ' ' << x.total());
TR(row_wildcard, new row_wildcard(t, n), x.set(t, n), os << x.get() << ' ' << x.bells() << ' ' << x.count());
TR(falseness_table, new falseness_table(method(t, n), n & 1), { falseness_table y(method(t, n), 0); x.swap(y); }, { os << rows(RV(x.begin(), x.end())); });
TR(peal, new peal(peal::date(n, n + 1, 1900), t), x = peal(peal::date(), t), os << x.when().day << x.when().year << x.where());
TR(prover, new prover(1 + n % 3), x.add_row(row(t)), os << x.truth() << x.size() << x.duplicates() << x.count_row(row("2143")));
typedef printrow::options popts;
void mutopt(popts& x, int n) { popts::line_style l = { dimension(n), { true, 0, 0, 0 }, false }; x.lines[n % 8] = l; }
TR(popts, ([&] { popts* p = new popts; p->defaults(); p->style.font = t; return p; })(), mutopt(x, n),
   { os << x.style.font << ' ' << x.flags << x.grid_type; for (auto const& l : x.lines) os << ' ' << (int)l.first << ':' << l.second.width.n; });

static vector<row> cyc(string const& t) { row r(t); vector<row> v; v.push_back(row(r.bells())); for (row x = r; !x.isrounds(); x *= r) v.push_back(x); return v; }
typedef multtab mtab;
TR(mtab, ([&] { vector<row> v = cyc(t); return new multtab(v.begin(), v.end()); })(), { RV v; for (auto i = x.begin_rows(); i != x.end_rows(); ++i) v.push_back(x.find(*i)); if (v.empty()) return; row r = v[n % v.size()]; x.compute_post_mult(r); },
   { os << x.size() << x.bells() << ' '; for (auto i = x.begin_rows(); i != x.end_rows(); ++i) os << rowstr(x.find(*i)) << ' '; });

struct Lib { string text; std::shared_ptr<std::istringstream> is; library l; };
static string entries(library const& l) { string s; int c = 0; for (library::const_iterator i = l.begin(), e = l.end(); i != e && c < 100; ++i, ++c) s += i->name() + "=" + i->pn() + "/" + methstr(i->meth()) + ";"; return s; }
static string names(library const& l) { string s; int c = 0; for (library::const_iterator i = l.begin(), e = l.end(); i != e && c < 100; ++i, ++c) s += i->name() + ";"; return s; }
typedef library_entry lentry;
// entries refer to the set they came from, which must outlive them
static std::list<methodset> pool;
TR(lentry, ([&] { std::unique_ptr<library_entry> e; { pool.push_back(methodset()); methodset& s = pool.back(); s.append(method("X1X1X1", n, t)); s.append(method("X12", n, t + "b")); s.find(method("X1X1X1", n)).set_facet<rw_ref>(t); e.reset(new library_entry(n % 2 ? s.find(t) : s.find(method("X12", n)))); } return e.release(); })(),
   x = library_entry(), { if (x.null()) os << "null"; else os << x.name() << x.pn() << methstr(x.meth()) << x.has_facet<rw_ref>(); });
typedef vector<change> CV;
TR(CV, ([&] { std::unique_ptr<CV> v(new CV); interpret_pn(n, t.begin(), t.end(), std::back_inserter(*v)); return v.release(); })(), x.push_back(change(n, t)), { for (change const& c : x) os << chstr(c) << '.'; });

template <class T> void hist(Args const& a, Out& o) {
  std::unique_ptr<T> s[4];
  for (size_t q = 2; q < a.size(); ++q) {
    vector<string> f = split(a[q], '\x01'); f.resize(5);
    int i = I(f[1]) & 3, j = I(f[2]) & 3, n = I(f[3]); string const& t = f[4]; string note = "ok";
    try {
      if (f[0] == "mk") { std::unique_ptr<T> p(Tr<T>::mk(t, n)); s[i] = std::move(p); }
      else if (f[0] == "copy") { std::unique_ptr<T> p(s[j] ? new T(*s[j]) : 0); s[i] = std::move(p); }
      else if (f[0] == "asg") { if (s[i] && s[j]) *s[i] = const_cast<T const&>(*s[j]); else note = "-"; }
      else if (f[0] == "swap") { if (s[i] && s[j]) swp(*s[i], *s[j]); else note = "-"; }
      else if (f[0] == "move") { if (s[i] && i != j) { s[j].reset(new T(std::move(*s[i]))); *s[i] = *s[j]; } else note = "-"; }
      else if (f[0] == "masg") { if (s[i] && s[j] && i != j) { *s[j] = std::move(*s[i]); s[i].reset(); } else note = "-"; }
      else if (f[0] == "del") s[i].reset();
      else if (f[0] == "mut") { if (s[i]) Tr<T>::mut(*s[i], t, n); else note = "-"; }
      else if (f[0] == "vec") { if (s[i]) { vector<T> v(3, *s[i]); v.push_back(v[0]); v.insert(v.begin(), v[1]); v.erase(v.begin() + 1); std::reverse(v.begin(), v.end()); *s[i] = v[2]; } else note = "-"; }
    } catch (std::exception const&) { note = "!"; }
    o << note;
    for (auto const& p : s) o << (p ? Tr<T>::show(*p) : "");
  }
}
}
OP(hist) {
  string const& k = a[1];
#define H(name, T) if (k == name) return hist<T>(a, o)
  H("row", row); H("change", change); H("method", method); H("group", group); H("extent", extent_iterator); H("incourse", incourse_extent_iterator);
  H("changes", changes_iterator); H("music", music); H("details", music_details); H("wild", row_wildcard); H("falseness", falseness_table); H("peal", peal);
  H("prover", prover); H("options", popts); H("multtab", mtab); H("entry", lentry); H("cv", CV);
  o << "?";
}
OP(libhist) {  // histories of library handles and iterators: steps
  struct Slot { library l; bool set; std::shared_ptr<library::const_iterator> it; };
  vector<std::shared_ptr<std::istringstream> > keep;
  Slot s[4]; for (auto& x : s) x.set = false;
  for (size_t q = 1; q < a.size(); ++q) {
    vector<string> f = split(a[q], '\x01'); f.resize(5);
    int i = I(f[1]) & 3, j = I(f[2]) & 3, n = I(f[3]); string const& t = f[4]; string note = "ok";
    try {
      if (f[0] == "lite") { keep.push_back(std::shared_ptr<std::istringstream>(new std::istringstream(t))); s[i].it.reset(); s[i].l = litelib(n, *keep.back()); s[i].set = true; }
      else if (f[0] == "set") { methodset m; std::istringstream is(t); string w; int c = 0; while (is >> w) m.append(method(w, n, "M" + std::to_string(c++))); s[i].it.reset(); s[i].l = m; s[i].set = true; }
      else if (f[0] == "copy") { s[i].it.reset(); library l(s[j].l); s[i].l = l; s[i].set = s[j].set; }
      else if (f[0] == "swap") { s[i].it.reset(); s[j].it.reset(); std::swap(s[i].l, s[j].l); std::swap(s[i].set, s[j].set); }
      else if (f[0] == "self") { library const& l = s[i].l; s[i].l = l; }
      else if (f[0] == "del") { s[i].it.reset(); s[i].l = library(); s[i].set = false; }
      else if (!s[i].set) note = "-";
      else if (f[0] == "begin") s[i].it.reset(new library::const_iterator(s[i].l.begin()));
      else if (f[0] == "next") { if (s[i].it && *s[i].it != s[i].l.end()) { ++*s[i].it; note = *s[i].it != s[i].l.end() ? (*s[i].it)->name() : "end"; } }
      else if (f[0] == "at") { note = s[i].it && *s[i].it != s[i].l.end() ? methstr((*s[i].it)->meth()) : "end"; }
      else if (f[0] == "itcopy") { if (s[j].it) { library::const_iterator c(*s[j].it); library::const_iterator d; d = c; s[j].it.reset(new library::const_iterator(d)); } }
      else if (f[0] == "all") note = entries(s[i].l);
      else if (f[0] == "title") { library_entry e = s[i].l.find(t); note = e.null() ? "none" : e.name(); }
      else if (f[0] == "meth") { library_entry e = s[i].l.find(method(t, n)); note = e.null() ? "none" : e.name(); }
      else if (f[0] == "load") note = methstr(s[i].l.load(t, n));
      else if (f[0] == "dir") { std::list<string> d; note = std::to_string(s[i].l.dir(d)); }
      else note = "?";
    } catch (std::exception const&) { note = "!"; }
    o << note;
  }
}
