// A String of a given text in one of the storage states the library produces.
#ifndef PLACED_H
#define PLACED_H
#include "strworld.h"
struct Placed {
  BS s;
  BS keep;  // may share the storage
  SS keepText;
};
inline Placed place(Src& g, const SS& t) {
  Placed p;
  switch (g.draw(7)) {
    case 0: p.s = BS(t); break;
    case 1: { SS a = g.bytes2(6, 400), b = g.bytes2(6, 400); BS base(a + t + b); p.s = base((ssize_t)a.size(), (ssize_t)t.size()); if (t.empty()) p.s = BS(); p.keep = base; p.keepText = a + t + b; g.label("placed-view"); break; }
    case 2: { SS a = g.bytes2(6, 400); BS base(a + t); base += a.size(); if (t.empty()) base = BS(); p.s = base; g.label("placed-tail-view"); break; }
    case 3: p.s = BS(t); p.keep = p.s; p.keepText = t; g.label("placed-shared"); break;
    case 4: p.s = BS(t.size() + g.len2(20, 3000)); p.s += BS(t); break;
    case 5: p.s = BS(t.begin(), t.end()); g.label("placed-exact"); break;
    default: { SS b = g.bytes2(6, 400); p.s = BS(t + b); p.s -= b.size(); g.label("placed-head-view"); break; }
  }
  if (!same(p.s, t)) p.s = BS(t);  // preparation is judged elsewhere
  if (!same(p.keep, p.keepText)) { p.keep = BS(p.keepText); }
  return p;
}
inline void keepOK(const Placed& p, const SS& t, const char* what) {
  expect(p.s, t, what);
  expect(p.keep, p.keepText, what);
}

#endif
