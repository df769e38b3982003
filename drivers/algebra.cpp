// extents, groups, multiplication tables, arithmetic
#include "drv.h"
#include "common.h"
#include <ringing/extent.h>
#include <ringing/group.h>
#include <ringing/multtab.h>
#include <ringing/mathutils.h>
#include <ringing/lexical_cast.h>
#include <memory>
#include <iterator>
#include <sstream>
using namespace ringing;
using std::string; using std::vector;

static vector<row> rowlist(string const& s) {
  vector<row> v; for (string const& x : split(s, ' ')) v.push_back(x == "-" ? row() : mkrow(x)); return v;
}
static void outrows(Out& o, vector<row> const& v) {
  string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ' '; s += rowstr(v[i]); } o << s;
}
static const size_t CAP = 50000;

OP(extent) {  // nw nh nt form
  unsigned nw = I(a[1]), nh = I(a[2]), nt = I(a[3]); int form = I(a[4]);
  vector<row> v; bool capped = false;
  ringing::extent x = form == 1 ? ringing::extent(nw, nh) : ringing::extent(nw, nh, nt);
  if (form == 2) {
    extent_iterator i = nt == nw + nh ? (nh == 0 ? extent_iterator(nw) : extent_iterator(nw, nh)) : extent_iterator(nw, nh, nt);
    for (; i != extent_iterator(); i++) { v.push_back(*i); if (v.size() > CAP) { capped = true; break; } }
  } else
    for (ringing::extent::const_iterator i = x.begin(), e = x.end(); i != e; ++i) {
      if (i->bells() != (*i).bells()) capped = true;
      v.push_back(*i); if (v.size() > CAP) { capped = true; break; }
    }
  o << capped << x.size(); outrows(o, v);
  string pos, back; vector<row> nth;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) pos += ','; pos += std::to_string(x[v[i]]);
    nth.push_back(x[i]);
  }
  o << pos; outrows(o, nth);
  // backwards
  vector<row> b; extent_iterator e = x.end();
  for (size_t i = 0; i < v.size(); ++i) { if (i % 2) e--; else --e; b.push_back(*e); }
  outrows(o, b);
  o << (e == x.begin()) << (x.begin() < x.end()) << (x.end() < x.begin()) << x.end().is_end();
}
OP(incourse) {
  unsigned nw = I(a[1]), nh = I(a[2]), nt = I(a[3]);
  vector<row> v, nth; bool capped = false; string pos;
  for (incourse_extent_iterator i = nt == nw + nh ? incourse_extent_iterator(nw, nh) : incourse_extent_iterator(nw, nh, nt), e; i != e; ++i)
    { v.push_back(*i); if (v.size() > CAP) { capped = true; break; } }
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) pos += ',';
    pos += std::to_string(position_in_incourse_extent(v[i], nw, nh, nt));
    nth.push_back(nth_row_of_incourse_extent(i, nw, nh, nt));
  }
  o << capped; outrows(o, v); o << pos; outrows(o, nth);
}
OP(changes) {
  unsigned nw = I(a[1]), nh = I(a[2]), nt = I(a[3]); string s; size_t n = 0; bool capped = false;
  for (changes_iterator i = nt == nw + nh ? changes_iterator(nw, nh) : changes_iterator(nw, nh, nt), e; i != e; ++i) {
    if (n) s += ' '; s += chstr(*i); if (++n > CAP) { capped = true; break; }
  }
  o << capped << s;
}
OP(nthrow) {  // n nw nh nt
  unsigned nw = I(a[2]), nh = I(a[3]), nt = I(a[4]); size_t n = strtoull(a[1].c_str(), 0, 10);
  row r = nth_row_of_extent(n, nw, nh, nt);
  o << rowstr(r) << position_in_extent(r, nw, nh, nt) << sign_of_nth_row_of_extent(n) << r.sign();
}
OP(position) { o << position_in_extent(mkrow(a[1]), I(a[2]), I(a[3]), I(a[4])); }
OP(random_row) { int k = I(a[4]); for (int i = 0; i < k; ++i) o << rowstr(random_row(I(a[1]), I(a[2]), I(a[3]))); }

static group mkgroup(string const& s) {   // text: "gens r r r" | name args
  vector<string> f = split(s, ' ');
  if (f[0] == "gens") { vector<row> g; for (size_t i = 1; i < f.size(); ++i) g.push_back(mkrow(f[i])); return group(g); }
  if (f[0] == "one") return group(mkrow(f[1]));
  if (f[0] == "two") return group(mkrow(f[1]), mkrow(f[2]));
  if (f[0] == "default") return group();
  int p[3] = {I(f[1]), f.size() > 2 ? I(f[2]) : 0, f.size() > 3 ? I(f[3]) : 0};
  if (f[0] == "symmetric") return group::symmetric(p[0], p[1], p[2]);
  if (f[0] == "symmetric_group") return group::symmetric_group(p[0], p[1], p[2]);
  if (f[0] == "alternating") return group::alternating(p[0], p[1], p[2]);
  if (f[0] == "alternating_group") return group::alternating_group(p[0], p[1], p[2]);
  if (f[0] == "trivial") return group::trivial(p[0]);
  if (f[0] == "dihedral_c") return group::dihedral_c(p[0], p[1], p[2]);
  if (f[0] == "dihedral_r") return group::dihedral_r(p[0], p[1], p[2]);
  if (f[0] == "cyclic_c") return group::cyclic_c(p[0], p[1], p[2]);
  if (f[0] == "cyclic_r") return group::cyclic_r(p[0], p[1], p[2]);
  throw std::runtime_error("driver group " + s);
}
static void outgroup(Out& o, group const& g) {
  o << g.bells() << g.size(); outrows(o, vector<row>(g.begin(), g.end()));
  string s; for (bell b : g.invariants()) { if (s.size()) s += ','; s += std::to_string((int)b); } o << s;
}
OP(group) { outgroup(o, mkgroup(a[1])); }
OP(group_conj) { outgroup(o, mkgroup(a[1]).conjugate(mkrow(a[2]))); }
OP(group_even) { outgroup(o, mkgroup(a[1]).even_subgroup()); }
OP(group_prod) { outgroup(o, group::direct_product(mkgroup(a[1]), mkgroup(a[2]))); }
OP(group_cmp) {
  group x(mkgroup(a[1])), y(mkgroup(a[2]));
  o << (x == y) << (x != y) << (x < y) << (x > y) << (x <= y) << (x >= y);
  group z(x); z.swap(y); o << (z == mkgroup(a[2])) << (y == x);
  swap(y, z); o << (z == x); z = y; o << (z == mkgroup(a[2]));
}
OP(group_coset) {   // labels of several rows
  group g(mkgroup(a[1])); string l, r;
  for (size_t i = 2; i < a.size(); ++i) {
    row x(mkrow(a[i])); o << rowstr(g.rcoset_label(x)) << rowstr(g.lcoset_label(x));
  }
}

static vector<row> rowset(string const& s) {
  vector<string> f = split(s, ' ');
  vector<row> v;
  if (f[0] == "ext") std::copy(extent_iterator(I(f[1]), I(f[2]), I(f[3])), extent_iterator(), std::back_inserter(v));
  else if (f[0] == "inc") std::copy(incourse_extent_iterator(I(f[1]), I(f[2]), I(f[3])), incourse_extent_iterator(), std::back_inserter(v));
  else for (string const& x : f) v.push_back(mkrow(x));
  return v;
}
OP(multtab) {   // rows, partends, postgroup, then commands
  vector<row> rows = rowset(a[1]);
  std::unique_ptr<multtab> t, u;
  if (a[3] != "") t.reset(new multtab(rows.begin(), rows.end(), mkgroup(a[2]), mkgroup(a[3])));
  else if (a[2] == "") t.reset(new multtab(rows.begin(), rows.end()));
  else if (split(a[2], ' ')[0] == "one") t.reset(new multtab(rows.begin(), rows.end(), mkrow(split(a[2], ' ')[1])));
  else t.reset(new multtab(rows.begin(), rows.end(), mkgroup(a[2])));
  u.reset(new multtab(extent_iterator(3), extent_iterator()));
  u->compute_post_mult(row("213"));
  { vector<row> v; for (multtab::row_iterator i = t->begin_rows(), e = t->end_rows(); i != e; ++i) v.push_back(t->find(*i));
    o << t->size() << t->bells() << t->group_size(); outrows(o, v); }
  struct col { bool pre; multtab::post_col_t post; multtab::pre_col_t prec; };
  vector<col> cols;
  auto products = [&](col const& c) {
    string s; for (multtab::row_iterator i = t->begin_rows(), e = t->end_rows(); i != e; ++i) {
      multtab::row_t p = c.pre ? c.prec * *i : *i * c.post;
      if (s.size()) s += ','; s += p.index() < t->size() ? std::to_string(p.index()) : "bad";
    }
    return s;
  };
  for (size_t i = 4; i < a.size(); ++i) {
    vector<string> f = split(a[i], ' ');
    try {
      if (f[0] == "post" || f[0] == "pre" || f[0] == "ch") {
        col c; c.pre = f[0] == "pre";
        if (c.pre) c.prec = t->compute_pre_mult(mkrow(f[1]));
        else if (f[0] == "ch") c.post = t->compute_post_mult(change(I(f[1]), f[2]));
        else c.post = t->compute_post_mult(mkrow(f[1]));
        cols.push_back(c); o << products(c);
      }
      else if (f[0] == "again") { if (cols.size()) o << products(cols[I(f[1]) % cols.size()]); else o << "none"; }
      else if (f[0] == "find") {
        multtab::row_t x = t->find(mkrow(f[1])); o << (std::to_string(x.index()) + " " + rowstr(t->find(x)) + (x.isrounds() ? " R" : " -"));
      }
      else if (f[0] == "copy") { std::unique_ptr<multtab> n(new multtab(*t)); t.swap(n); cols.clear(); o << "ok"; }
      else if (f[0] == "assign") { multtab n(u->begin_rows() != u->end_rows() ? *u : *t); n = *t; t->compute_post_mult(rows[0] / rows[0]); *t = n; multtab& q = *t; *t = q; cols.clear(); o << "ok"; }
      else if (f[0] == "swap") { multtab n(*u); n.swap(*t); swap(*t, n); cols.clear(); o << "ok"; }
      else if (f[0] == "dump") { std::ostringstream os; t->dump(os); o << os.str().size(); }
      else o << "?";
    } catch (std::exception const& e) { o << "!"; }
  }
}
OP(sqmulttab) {   // rows ; all products ; then chains of multiplications
  vector<row> rows = rowset(a[1]);
  sqmulttab t0(rows.begin(), rows.end());
  sqmulttab t(t0);
  string s;
  for (row const& x : rows) { sqmulttab::row_t p = t.find(x);
    for (row const& y : rows) { sqmulttab::row_t q = t.find(y); row z = t.find(p * q);
      if (!(z == x * y)) s += rowstr(x) + "*" + rowstr(y) + "=" + rowstr(z) + ";"; } }
  o << t.size() << s.substr(0, 300);
  for (size_t i = 2; i < a.size(); ++i) {
    vector<row> v = rowlist(a[i]); sqmulttab::row_t p = t.find(v[0]);
    for (size_t j = 1; j < v.size(); ++j) p = j % 2 ? p * t.find(v[j]) : p * t.compute_post_mult(v[j]);
    o << rowstr(t.find(p));
  }
}

// ---- arithmetic
OP(math) {
  string const& f = a[1];
  if (f == "factorial") o << factorial(strtoul(a[2].c_str(), 0, 10));
  else if (f == "fibonacci") o << fibonacci(strtoul(a[2].c_str(), 0, 10));
  else if (f == "hcf") o << hcf(I(a[2]), I(a[3]));
  else if (f == "lcm") o << lcm(I(a[2]), I(a[3]));
  else if (f == "ipower") o << ipower(I(a[2]), I(a[3]));
  else if (f == "is_prime") o << is_prime(strtoul(a[2].c_str(), 0, 10));
  else if (f == "next_prime") o << next_prime(strtoul(a[2].c_str(), 0, 10));
  else if (f == "landau") o << landau(I(a[2]));
  else if (f == "sign") o << sign(I(a[2]));
}
static vector<int> rnds; static size_t rndi;
static int fakernd() { return rnds[rndi++ % rnds.size()]; }
OP(random) {   // kind, arg, max, seeds,...: with a supplied generator
  rnds.clear(); rndi = 0; for (string const& s : split(a[4], ',')) rnds.push_back(I(s));
  std::pair<int(*)(), int> old = random_fn(&fakernd, I(a[3]));
  string r;
  try {
    for (size_t i = 0; i < rnds.size(); ++i) {
      std::ostringstream os; os.precision(17);
      if (a[1] == "int") os << random_int(strtoul(a[2].c_str(), 0, 10));
      else if (a[1] == "uniform") os << random_uniform_deviate(strtod(a[2].c_str(), 0));
      else if (a[1] == "row") os << rowstr(random_row(I(a[2]), 1, I(a[2]) + 2));
      o << os.str();
    }
  } catch (...) { random_fn(old.first, old.second); throw; }
  std::pair<int(*)(), int> mine = random_fn(old.first, old.second);
  o << (mine.first == &fakernd);
}
OP(cast) {   // type, text
  string const& t = a[1]; string const& s = a[2];
  if (t == "int") o << lexical_cast<int>(s);
  else if (t == "unsigned") o << lexical_cast<unsigned>(s);
  else if (t == "long") o << lexical_cast<long>(s);
  else if (t == "short") o << lexical_cast<short>(s);
  else if (t == "bell") o << (int)lexical_cast<bell>(s);
  else if (t == "row") o << rowstr(lexical_cast<row>(s));
  else if (t == "float") { std::ostringstream os; os.precision(9); os << lexical_cast<float>(s); o << os.str(); }
  else if (t == "rev") o << lexical_cast<string>(I(s));
  else if (t == "revbell") o << lexical_cast<string>(bell(I(s)));
  else if (t == "ms") { string x = make_string() << "a" << I(s) << ',' << row(5) << std::hex << 255; o << x; }
}
