// music and wildcards
#include "drv.h"
#include "common.h"
#include <ringing/music.h>
#include <ringing/row_wildcard.h>
using namespace ringing;
using std::string; using std::vector;

static string state(music& m) {
  std::ostringstream os;
  os << m.bells() << ' ' << m.size() << ' ' << m.get_count(eHandstroke) << ' ' << m.get_count(eBackstroke) << ' ' << m.get_count() << ' '
     << m.get_score(eHandstroke) << ' ' << m.get_score(eBackstroke) << ' ' << m.get_score();
  for (music_details const& d : m) {
    os << ';' << d.get() << ' ' << d.count(eHandstroke) << ' ' << d.count(eBackstroke) << ' ' << d.count() << ' ' << d.total(eHandstroke) << ' ' << d.total(eBackstroke) << ' ' << d.total() << ' ';
    vector<bell> w = d.last_wildcard_matches();
    for (size_t i = 0; i < w.size(); ++i) os << (i ? "," : "") << (int)w[i];
  }
  return os.str();
}
OP(music) {   // bells, commands
  music m(I(a[1]));
  for (size_t i = 2; i < a.size(); ++i) {
    string c = a[i].substr(1); string r;
    try {
      switch (a[i][0]) {
        case '+': { size_t k = c.find(':'); vector<string> s = split(c.substr(0, k), ','); music_details d(c.substr(k + 1), I(s[0]), I(s[1])); m.push_back(d); r = "ok"; break; }
        case 's': m.add_scored_music_string(c); r = "ok"; break;
        case 'n': { vector<string> s = split(c, ' '); m.add_named_music(s[0], I(s[1]), I(s[2])); r = "ok"; break; }
        case 'r': case 'R': { vector<row> v; for (string const& x : split(c, ' ')) v.push_back(mkrow(x)); m.process_rows(v.begin(), v.end(), a[i][0] == 'R'); r = "ok"; break; }
        case 'p': case 'P': r = m.process_row(mkrow(c), a[i][0] == 'P') ? "1" : "0"; break;
        case 'z': m.reset_music(); r = "ok"; break;
        case 'c': m.clear(I(c)); r = "ok"; break;
        case 'b': m.set_bells(I(c)); r = "ok"; break;
        case 'C': { music n(m); music q; q = n; m = q; r = "ok"; break; }
        case 'A': { vector<string> s = split(c, ' '); music n(m.bells()); for (string const& x : s) n.push_back(music_details(x, 2, 3)); m.append(n); r = "ok"; break; }
        case 'q': r = std::to_string(m.get_possible_score()); break;
      }
    } catch (std::exception const&) { r = "!"; }
    o << r << state(m);
  }
}
OP(wildcard) { // pattern, bells
  int n = I(a[2]);
  o << guard([&] { row_wildcard w(a[1], n); return w.count(); })
    << guard([&] { row_wildcard w(a[1]); return w.count(n); })
    << guard([&] { row_wildcard w("*", n); w.set(a[1], 0); w.set_bells(n); return w.count(); })
    << guard([&] { music_details d(a[1]); return d.possible_matches(n); })
    << guard([&] { music_details d; d.set(a[1], 3, -2); return d.possible_score(n); });
  o << guard([&] { row_wildcard w(a[1]); return w.get() == a[1]; });
}
