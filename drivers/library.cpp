// method libraries: reading, collecting, writing
#include "drv.h"
#include "common.h"
#include <ringing/library.h>
#include <ringing/mslib.h>
#include <ringing/cclib.h>
#include <ringing/xmllib.h>
#include <ringing/litelib.h>
#include <ringing/xmlout.h>
#include <ringing/methodset.h>
#include <ringing/method_stream.h>
#include <ringing/libout.h>
#include <ringing/peal.h>
#include <ringing/method.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <memory>
#include <algorithm>
#include <list>
#include <iterator>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
using namespace ringing;
using std::string; using std::vector;

static string changes(method const& m) {
  string s; for (size_t i = 0; i < m.size(); ++i) { if (i) s += '.'; s += chstr(m[i]); } return s;
}
static string pealstr(peal const& p) {
  std::ostringstream os; os << p.when().year << "-" << p.when().month << "-" << p.when().day << "@" << p.where(); return os.str();
}
template <class F, class T> static void facet(library_entry const& e, char const* tag, string& out, T show) {
  bool h = e.has_facet<F>();
  std::shared_ptr<int> x;
  bool got = false; string v;
  try { v = show(e.get_facet<F>()); got = true; } catch (std::runtime_error const&) {}
  if (h != got) out += string("!has/get differ for ") + tag;
  if (got) out += string(out.empty() ? "" : "\x01") + tag + "=" + v;
}
static string facets(library_entry const& e) {
  string f; auto id = [](string const& s) { return s; };
  auto num = [](int i) { std::ostringstream os; os << i; return os.str(); };
  facet<litelib::payload>(e, "payload", f, id); facet<cclib::ref>(e, "ref", f, num);
  facet<first_tower_peal>(e, "tower", f, pealstr); facet<first_hand_peal>(e, "hand", f, pealstr);
  facet<rw_ref>(e, "rw", f, id); facet<cc_collection_id>(e, "ccc", f, id);
  return f;
}
static void dump(library_entry const& e, Out& o) {
  if (e.null()) { o << "null"; return; }
  o << guard([&]{ return e.name(); }) << guard([&]{ return e.base_name(); }) << guard([&]{ return e.bells(); })
    << guard([&]{ return changes(e.meth()); }) << guard([&]{ return e.fullname(); }) << guard([&]{ return facets(e); });
}
static library open_lib(string const& k, int b, int flags, string const& fn, std::unique_ptr<std::istringstream>& is, string const& text) {
  if (k == "ms") return mslib(fn);
  if (k == "cc") return cclib(fn);
  if (k == "xml") return xmllib(xmllib::filename, fn);
  if (k == "lite") return litelib(b, fn, flags);
  if (k == "stream") { is.reset(new std::istringstream(text)); return litelib(b, *is, flags); }
  static bool done = false;
  if (!done) { done = true; cclib::registerlib(); xmllib::registerlib(); mslib::registerlib(); }
  return library(fn);
}
OP(lib) { // kind, bells, flags, file name, contents, queries...
  string fn = a[4];
  if (fn.find('/') != string::npos) mkdir(fn.substr(0, fn.find('/')).c_str(), 0777);
  if (a[1] != "stream") { std::ofstream f(fn.c_str(), std::ios::binary); f << a[5]; }
  std::unique_ptr<std::istringstream> is;
  try {
    library l = open_lib(a[1], I(a[2]), I(a[3]), fn, is, a[5]);
    o << l.good();
    vector<library_entry> kept;
    for (library::const_iterator i = l.begin(), e = l.end(); i != e; ++i) {
      o << "entry"; dump(*i, o); kept.push_back(*i);
      if (kept.size() > 100000) break;
    }
    for (size_t q = 6; q < a.size(); ++q) {
      vector<string> w = split(a[q], '\x01');
      if (w[0] == "title") { o << "found"; dump(l.find(w[1]), o); }
      else if (w[0] == "meth") { o << "found"; dump(l.find(method(w[2], I(w[1]))), o); }
      else if (w[0] == "load") o << "found" << guard([&]{ method m = l.load(w[1], I(w[2])); std::ostringstream os; os << m.bells() << ":" << changes(m) << ":" << m.name(); return os.str(); });
      else if (w[0] == "kept") { // entries kept from the first pass still say the same
        o << "found"; for (auto const& e : kept) dump(e, o); }
      else if (w[0] == "again") { o << "found"; for (library::const_iterator i = l.begin(), e = l.end(); i != e; i++) dump(*i, o); }
      else if (w[0] == "two") { // two iterators at once over one library object must not be needed; a second library object may
        o << "found"; library m = l; size_t n = 0; for (library::const_iterator i = m.begin(); i != m.end(); ++i) ++n; o << n; }
      else if (w[0] == "dir") { o << "found"; std::list<string> d; int k = l.dir(d); o << k << join(d, "\x02"); }
    }
  } catch (std::exception const& e) { o.f.clear(); o << "!open"; }
  unlink(fn.c_str());
}
struct Spec { int b; string pn, name; vector<string> facets; };
static library_entry with_facets(methodset& s, method const& m, vector<string> const& w, size_t from) {
  s.append(m); library_entry e = s.find(m);
  for (size_t i = from; i < w.size(); ++i) {
    size_t k = w[i].find('='); string t = w[i].substr(0, k), v = w[i].substr(k + 1);
    auto pe = [&]{ int y = 0, mo = 0, d = 0; size_t at = v.find('@'); sscanf(v.c_str(), "%d-%d-%d", &y, &mo, &d); return peal(peal::date(d, mo, y), v.substr(at + 1)); };
    if (t == "payload") e.set_facet<litelib::payload>(v);
    else if (t == "ref") e.set_facet<cclib::ref>(I(v));
    else if (t == "tower") e.set_facet<first_tower_peal>(pe());
    else if (t == "hand") e.set_facet<first_hand_peal>(pe());
    else if (t == "rw") e.set_facet<rw_ref>(v);
    else if (t == "ccc") e.set_facet<cc_collection_id>(v);
  }
  return e;
}
OP(libout) { // form, methods...: bells \1 pn \1 name \1 facets...
  string const& k = a[1]; string fn = "out.xml";
  unlink(fn.c_str());
  std::stringstream cap; struct Red { std::streambuf* b; ~Red() { std::cout.rdbuf(b); } } red = { std::cout.rdbuf() };
  {
    libout out; 
    if (k == "xml") out = xmlout(fn);
    else if (k == "multi") { multilibout m; o << m.empty(); m.add(new xmlout(fn)); m.add(new method_stream(true, method_stream::full_title)); o << m.empty(); out = m; }
    else out = method_stream(k[0] == '1', (method_stream::name_form)I(k.substr(1)));
    std::cout.rdbuf(cap.rdbuf());
    methodset src;
    vector<library_entry> es;
    for (size_t i = 2; i < a.size(); ++i) {
      vector<string> w = split(a[i], '\x01');
      methodset one; library_entry e = with_facets(one, method(w[1], I(w[0]), w[2]), w, 3);
      if (i % 3 == 0) out.append(e); else if (i % 3 == 1) out.push_back(e); else { libout::iterator it = out.begin(); *it++ = e; }
    }
    out.flush();
    if (I("0") == 0 && a.size() % 2) out.flush();
  }
  std::cout.rdbuf(red.b);
  o << cap.str();
  std::ifstream f(fn.c_str(), std::ios::binary); std::stringstream t; t << f.rdbuf(); f.close(); o << t.str();
  if (k == "xml" || k == "multi") {
    xmllib l(xmllib::filename, fn);
    for (library::const_iterator i = l.begin(), e = l.end(); i != e; ++i) { o << "entry"; dump(*i, o); }
  }
  else if (I(k.substr(1)) != 1 && I(k.substr(1)) != 4) {
    std::istringstream is(cap.str());
    litelib l(k[0] == '1' || a.size() < 3 ? 0 : I(split(a[2], '\x01')[0]), is, litelib::payload_is_name);
    for (library::const_iterator i = l.begin(), e = l.end(); i != e; ++i) { o << "entry"; dump(*i, o); }
  }
  unlink(fn.c_str());
}
OP(mset) { // history of operations on method sets s0, s1
  methodset s[2]; vector<library_entry> held;
  for (size_t q = 1; q < a.size(); ++q) {
    vector<string> w = split(a[q], '\x01'); int k = I(w[1]);
    if (w[0] == "add") s[k].append(method(w[3], I(w[2]), w[4]));
    else if (w[0] == "addf") { // an entry with facets, built elsewhere
      methodset one; vector<string> r(w.begin() + 2, w.end()); library_entry e = with_facets(one, method(r[1], I(r[0]), r[2]), r, 3); s[k].append(e); }
    else if (w[0] == "store") { if (w[2] == "payload") s[k].store_facet<litelib::payload>(); else if (w[2] == "tower") s[k].store_facet<first_tower_peal>(); else if (w[2] == "rw") s[k].store_facet<rw_ref>(); }
    else if (w[0] == "set") { library_entry e = s[k].find(method(w[3], I(w[2]))); if (!e.null()) { if (w[4] == "rw") e.set_facet<rw_ref>(w[5]); else e.set_facet<litelib::payload>(w[5]); } }
    else if (w[0] == "clear") s[k].clear();
    else if (w[0] == "copy") s[k].append(s[1 - k].begin(), s[1 - k].end());
    else if (w[0] == "share") s[k] = s[1 - k];
    else if (w[0] == "own") s[k] = methodset(s[k].begin(), s[k].end());
    else if (w[0] == "size") o << (int)s[k].size() << s[k].empty();
    else if (w[0] == "find") { o << "r"; dump(s[k].find(method(w[3], I(w[2]))), o); }
    else if (w[0] == "title") { o << "r"; dump(s[k].find(w[2]), o); }
    else if (w[0] == "list") { o << "r"; vector<string> v; for (methodset::const_iterator i = s[k].begin(); i != s[k].end(); ++i) { Out t; dump(*i, t); v.push_back(join(t.f, "\x02")); o << guard([&]{ return changes(method(i->pn(), i->bells())) == changes(i->meth()) ? "same" : i->pn(); }); } std::sort(v.begin(), v.end()); for (auto const& x : v) o << x; o << "end"; }
    else if (w[0] == "back") { libout& l = s[k]; std::copy(s[1 - k].begin(), s[1 - k].end(), std::back_inserter(l)); }
  }
}
