// printed methods
#include "drv.h"
#include "common.h"
#include <ringing/method.h>
#include <ringing/print.h>
#include <ringing/print_ps.h>
#include <ringing/print_pdf.h>
#include <ringing/printm.h>
#include <memory>
#include <map>
using namespace ringing;
using std::string; using std::vector;
namespace {
dimension D(string const& s) { dimension d; d.read(s); return d; }
colour C(string const& s) { // 0.5 or 0,0,1
  vector<string> f = split(s, ','); colour c; c.grey = f.size() == 1; c.red = atof(f[0].c_str()); c.green = c.blue = 0;
  if (!c.grey) { c.green = atof(f[1].c_str()); c.blue = atof(f[2].c_str()); } return c;
}
std::unique_ptr<printpage> page(string const& kind, std::ostream& os) {
  vector<string> f = split(kind, ' ');
  if (f[0] == "ps") return std::unique_ptr<printpage>(new printpage_ps(os));
  if (f[0] == "psl") return std::unique_ptr<printpage>(new printpage_ps(os, dimension(I(f[1]))));
  if (f[0] == "eps") return std::unique_ptr<printpage>(new printpage_ps(os, I(f[1]), I(f[2]), I(f[3]), I(f[4])));
  if (f[0] == "pdf") return f.size() > 1 ? std::unique_ptr<printpage>(new printpage_pdf(os, dimension(I(f[1])), dimension(I(f[2])))) : std::unique_ptr<printpage>(new printpage_pdf(os));
  return std::unique_ptr<printpage>(new printpage_pdf(os, dimension(I(f[1])), dimension(I(f[2])), true));
}
}
OP(printm) { // kind, bells, place notation, key=value...
  std::ostringstream os; 
  {
    method m(a[3], I(a[2])); printmethod pm(m);
    std::unique_ptr<printpage> pp = page(a[1], os);
    bool def = false;
    pm.opt.flags = printrow::options::numbers; pm.opt.grid_type = 0; pm.opt.lines.clear();
    string t2;
    for (size_t i = 4; i < a.size(); ++i) {
      size_t e = a[i].find('='); string k = a[i].substr(0, e), v = a[i].substr(e + 1); vector<string> f = split(v, '|');
      if (k == "defaults") pm.defaults();
      else if (k == "flags") pm.opt.flags = I(v);
      else if (k == "font") { pm.opt.style.font = f[0]; pm.opt.style.size = I(f[1]); pm.opt.style.col = C(f[2]); }
      else if (k == "xs") pm.opt.xspace = D(v);
      else if (k == "ys") pm.opt.yspace = D(v);
      else if (k == "hgap") pm.hgap = D(v);
      else if (k == "vgap") pm.vgap = D(v);
      else if (k == "rows") pm.total_rows = I(v);
      else if (k == "rpc") pm.rows_per_column = I(v);
      else if (k == "cps") pm.columns_per_set = I(v);
      else if (k == "spp") pm.sets_per_page = I(v);
      else if (k == "xoff") pm.xoffset = D(v);
      else if (k == "yoff") pm.yoffset = D(v);
      else if (k == "rule") pm.rules.push_back(std::make_pair(I(f[0]), I(f[1])));
      else if (k == "mode") pm.number_mode = (printmethod::number_mode_t)I(v);
      else if (k == "pn") pm.pn_mode = (printmethod::pn_mode_t)I(v);
      else if (k == "pb") pm.placebells = I(v);
      else if (k == "calls") pm.calls = v;
      else if (k == "start") pm.startrow(mkrow(v));
      else if (k == "line") { printrow::options::line_style s; s.width = D(f[2]); s.col = C(f[1]); s.crossing = I(f[3]); pm.opt.lines[I(f[0])] = s; }
      else if (k == "grid") { pm.opt.grid_type = I(f[0]); pm.opt.grid_style.col = C(f[1]); pm.opt.grid_style.width = D(f[2]); pm.opt.grid_style.crossing = false; }
      else if (k == "text" || k == "after") {
        text_style s; s.font = f[1]; s.size = I(f[2]); s.col = C(f[3]);
        if (k == "text") pp->text(f[0], D(f[4]), D(f[5]), (text_style::alignment)I(f[6]), s); else t2 = v;
      }
      else if (k == "newpage") pp->new_page();
      else if (k == "noprint") def = true;
    }
    if (!def) {
      pm.print(*pp);
      float x0, y0, x1, y1; pm.get_bbox(x0, y0, x1, y1);
      o << x0 << y0 << x1 << y1 << pm.total_width() << pm.total_height();
    }
    if (t2.size()) { vector<string> f = split(t2, '|'); text_style s; s.font = f[1]; s.size = I(f[2]); s.col = C(f[3]); pp->text(f[0], D(f[4]), D(f[5]), (text_style::alignment)I(f[6]), s); }
  }
  o << os.str();
}
OP(fitm) { // bells, pn, rows, width, height, vgap mode, aspect, pn mode, pb
  method m(a[2], I(a[1])); printmethod pm(m); pm.defaults(); pm.total_rows = I(a[3]); pm.pn_mode = (printmethod::pn_mode_t)I(a[8]); pm.placebells = I(a[9]);
  pm.fit_to_space(D(a[4]), D(a[5]), a[6] == "1", atof(a[7].c_str()));
  o << pm.opt.xspace.in_points() << pm.opt.yspace.in_points() << pm.hgap.in_points() << pm.vgap.in_points() << pm.rows_per_column << pm.columns_per_set << pm.sets_per_page << pm.total_width() << pm.total_height() << pm.opt.style.size;
}
