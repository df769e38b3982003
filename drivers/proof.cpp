// proofs and falseness
#include "drv.h"
#include "common.h"
#include <ringing/proof.h>
#include <ringing/falseness.h>
#include <ringing/group.h>
#include <ringing/method.h>
#include <ringing/pointers.h>
#include <memory>
using namespace ringing;
using std::string; using std::vector;

static string lines(prover::failinfo const& fi) {
  string s;
  for (linedetail const& l : fi) {
    if (s.size()) s += ';';
    s += rowstr(l._row) + "=" + join(l._lines, ",");
  }
  return s;
}

OP(prover) {   // max, with failinfo, commands
  prover::failinfo fi;
  std::vector<shared_pointer<prover> > st;
  int mx = I(a[1]);
  st.push_back(shared_pointer<prover>(a[2] == "1" ? new prover(fi, mx) : mx == 1 ? new prover : new prover(mx)));
  for (size_t i = 3; i < a.size(); ++i) {
    string const& c = a[i]; string r;
    prover& p = *st.back();
    row x; if (c.size() > 1) x = mkrow(c.substr(1));
    if (c[0] == '+') r = p.add_row(x) ? "1" : "0";
    else if (c[0] == '-') { try { p.remove_row(x); r = "ok"; } catch (std::logic_error const&) { r = "!"; } }
    else if (c[0] == 'b') { st.push_back(prover::create_branch(st.back())); r = "b"; }
    else if (c[0] == 'p') { if (st.size() > 1) st.pop_back(); r = "p"; }
    else if (c[0] == 'd') { p.disable_proving(); r = "d"; }
    prover const& q = *st.back();
    r += " "; r += q.truth() ? "1" : "0";
    r += " " + std::to_string(q.duplicates()) + " " + std::to_string(q.size()) + " " + std::to_string(q.count_row(x)) + " " + lines(fi);
    o << r;
  }
}
template <class P> static void outproof(Out& o, P const& p) {
  std::ostringstream os; os << p;
  o << (bool)(int)p << (bool)!p << lines(p.failed()) << os.str();
}
OP(proof) {   // max, quick, number of rows known true, rows...   (twice with the same object)
  vector<row> v; for (size_t i = 4; i < a.size(); ++i) v.push_back(mkrow(a[i]));
  int mx = I(a[1]); bool qp = a[2] == "1"; int k = I(a[3]);
  typedef proof<vector<row>::const_iterator> P;
  vector<row>::const_iterator b = v.begin(), m = v.begin() + k, e = v.end();
  if (k == 0) {
    outproof(o, mx == 1 ? P(b, e, qp) : P(b, e, mx, qp));
    P p; o << (bool)(int)p; if (mx == 1) p.prove(b, e, qp); else p.prove(b, e, mx, qp);
    p.prove(b, e, mx, qp); outproof(o, p);
  } else {
    outproof(o, mx == 1 ? P(b, m, m, e, qp) : P(b, m, m, e, mx, qp));
    P p; o << (bool)(int)p; p.prove(b, e, mx, qp); if (mx == 1) p.prove(b, m, m, e, qp); else p.prove(b, m, m, e, mx, qp);
    outproof(o, p);
  }
}

static string rws(vector<row> const& v) { string s; for (row const& r : v) { if (s.size()) s += ' '; s += rowstr(r); } return s; }
OP(falseness) {  // bells, flags, pn A [, pn B [, form]]
  int n = I(a[1]), fl = I(a[2]); method m(a[3], n);
  std::unique_ptr<falseness_table> t;
  if (a.size() == 4) t.reset(new falseness_table(m, fl));
  else {
    method m2(a[4], n); int form = I(a[5]);
    row_block rb(m, row_block::no_final_lead_head), rb2(m2, row_block::no_final_lead_head);
    if (form == 0) t.reset(new falseness_table(m, m2, fl));
    else if (form == 1) t.reset(new falseness_table(m, static_cast<vector<row> const&>(rb2), fl));
    else t.reset(new falseness_table(static_cast<vector<row> const&>(rb), static_cast<vector<row> const&>(rb2), fl));
  }
  o << t->size() << rws(vector<row>(t->begin(), t->end()));
  falseness_table d; o << (d.size() == 1 && d.begin()->isrounds());
  d.swap(*t); swap(d, *t); falseness_table c(*t);
  if (t->size() && (n <= 6 || t->size() <= 2)) { group g(c.generate_group()); o << g.bells() << g.size(); }
  else o << "" << "";
}
OP(fch) {  // bells, flags, pn, optimise
  int n = I(a[1]), fl = I(a[2]); method m(a[3], n);
  if (a[4] == "1") false_courses::optimise(n); else if (a[4] == "2") false_courses::optimise(n == 8 ? 10 : 8); else false_courses::optimise(0);
  false_courses f(m, fl);
  o << f.size() << rws(vector<row>(f.begin(), f.end())) << guard([&] { return f.symbols(); });
  false_courses::optimise(0);
}
OP(fchsym) { for (size_t i = 1; i < a.size(); ++i) o << false_courses::lookup_symbol(mkrow(a[i])); }
OP(fchdef) { false_courses f; o << f.size() << guard([&] { return f.symbols(); }); falseness_table t; group g(t.generate_group()); o << g.size(); }
