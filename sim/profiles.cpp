// Workload generators and oracle selection per property.
#include "run.hpp"

#include <math.h>
#include <stdio.h>

#include <algorithm>

using namespace rt;
typedef std::string S;
typedef std::vector<S> VS;

static S I(int64_t v) { return std::to_string(v); }
template <class T> static const T& pick(Rng& r, const std::vector<T>& v) { return v[r.below(v.size())]; }

static const VS ALLDIST = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};
static const VS LP = {"euclidean", "manhattan", "chebyshev"};

// ---------------------------------------------------------------- datasets
struct Shape { int rows = 4, len = 8; bool uneven = false, names = false, positive = false, wide = false, extreme = false; S sep = " "; int startCol = 0; };
struct Made { S path; Shape sh; std::vector<int> lens; };

static S value(Rng& r, int style, int row, int col, bool positive) {
  char b[64];
  double x;
  switch (style) {
    case 0: x = (double)r.range(0, 3); break;                                  // many ties
    case 1: x = r.unit() * 10 - (positive ? 0 : 5); break;
    case 2: x = row; break;                                                    // constant rows
    case 3: x = sin(col * 0.7 + row) * 3 + (r.unit() - 0.5) * 0.2; break;
    case 4: x = r.range(-1000, 1000) * 0.001; break;
    case 5: x = r.chance(0.1) ? 1e6 * r.unit() : r.unit() * 1e-3; break;
    case 6: x = 7; break;                                                      // all equal
    case 8: snprintf(b, sizeof b, "%.9g", 100000 + r.range(0, 30) * 0.01); return b;   // differ in the last digits only
    case 9: snprintf(b, sizeof b, "%.12g", 2 + row * 0.25 + r.range(0, 9) * 1e-8); return b;
    case 10: x = r.range(0, 2) ? 0.5 * r.range(-2, 2) : 0; break;             // zeros and both signs
    case 11: x = (r.unit() - 0.5) * pow(10, (double)r.range(-30, 30)); break;  // all magnitudes
    case 12: x = r.chance(0.1) ? 0 : (r.unit() - 0.5) * pow(10, (double)r.range(-300, 300)); break;
    default: x = col * 0.5 + row * 0.25; break;                                // shifted ramps
  }
  if (positive) x = fabs(x) + 0.5;
  snprintf(b, sizeof b, r.chance(0.1) ? r.chance(0.1) ? "%.17g" : "%.9g" : "%.5g", x);
  return b;
}
// a longer spelling of the same number
static S spelledOut(Rng& r, const S& v) {
  S z((size_t)r.range(1, r.chance(0.3) ? 300 : 40), '0');
  size_t d = v[0] == '-' ? 1 : 0;
  if (v.find_first_not_of("0123456789.", d) != S::npos) return v;
  if (r.chance(0.5)) return v.substr(0, d) + z + v.substr(d);
  return v.find('.') == S::npos ? v + "." + z : v + z;
}
static S seriesName(Rng& r, int i, int kind) {
  S n = "n" + I(i);
  switch (kind) {
    case 0: n += S((size_t)r.range(1, 300), (char)('a' + r.below(26))); break;        // long ones
    case 1: n = "same"; break;
    case 2: n = I(i * 7 % 5); break;                                                  // look like values
    case 3: n += pick(r, VS{"\xc3\xa4", "#", "\"q\"", "'", "%", "/", "\\n", "--", "(1)", "="}); break;
    case 4: n = S(1, (char)('z' - i % 26)); break;                                    // not in order
    default: n += r.chance(0.2) ? "_a" : ""; break;
  }
  return n;
}
static S mkFile(Rng& r, const Shape& s, std::vector<int>& lens) {
  int style = s.extreme ? 12 : s.wide ? 11 : (int)r.below(11);
  S t;
  int longest = s.rows < 1 || r.chance(0.5) ? s.rows - 1 : (int)r.below(s.rows);
  int nameKind = r.chance(0.5) ? (int)r.below(5) : 5;
  bool sloppy = r.chance(0.08), spelled = r.chance(0.04);   // separators repeated, at the start, at the end; numbers with many digits
  bool stubs = s.uneven && r.chance(0.3);       // rows too short to have subsequences
  for (int i = 0; i < s.rows; i++) {
    int n = s.len;
    if (s.uneven && i != longest) n = stubs && r.chance(0.3) ? (int)r.below(2) : (int)r.range(std::min(2, s.len), s.len);
    S line;
    auto put = [&](const S& x) {
      line += (line.empty() ? "" : S(1, s.sep[r.below(s.sep.size())])) + x;
      if (sloppy && r.chance(0.2)) line = (r.chance(0.2) ? s.sep : S()) + line + s.sep;
    };
    for (int c = 0; c < s.startCol; c++) put("x" + I(c));
    if (s.names) put(seriesName(r, i, nameKind));
    for (int j = 0; j < n; j++) { S v = value(r, style, i, j, s.positive); put(spelled && r.chance(0.3) ? spelledOut(r, v) : v); }
    t += line + (i + 1 < s.rows || line.empty() || r.chance(0.8) ? "\n" : "");
    lens.push_back(n);
  }
  return t;
}
static Shape drawShape(Rng& r, int maxRows, int maxLen) {
  Shape s;
  s.rows = (int)r.range(1, maxRows);
  s.len = (int)r.range(2, maxLen);
  if (r.chance(0.08)) s.len = 2;
  if (r.chance(0.08)) s.rows = 1;
  s.uneven = r.chance(0.3);
  s.names = r.chance(0.25);
  static const VS seps = {" ", ",", " ,", ";", "\t"};
  s.sep = pick(r, seps);
  if (r.chance(0.15)) s.startCol = (int)r.range(1, 2);
  return s;
}
// now and then more rows or longer ones than fit into a byte
static bool stretch(Rng& r, Shape& s, double chance) {
  if (!r.chance(chance)) return false;
  if (r.chance(0.5)) { s.rows = (int)r.range(130, 290); s.len = (int)r.range(2, 3); }
  else { s.rows = 1; s.len = (int)r.range(129, 150); }
  return true;
}
// now and then no series, or series without values
static void hollow(Rng& r, Shape& s) {
  if (!r.chance(0.03)) return;
  if (r.chance(0.3)) s.rows = 0; else s.len = 0;
}
static Made addFile(Rng& r, Plan& p, const S& path, const Shape& s) {
  Made m;
  m.path = path; m.sh = s;
  p.files.push_back({path, mkFile(r, s, m.lens)});
  return m;
}
static void load(Plan& p, int ses, const S& name, const Made& m, int maxRow = 0) {
  p.add({"load", I(ses), name, m.path, m.sh.sep, I(maxRow), I(m.sh.startCol), m.sh.names ? "1" : "0"});
}
static S threshold(Rng& r) {
  static const VS t = {"0", "0.05", "0.2", "0.5", "1", "2", "10", "1e9", "0.01", "0.123456789", "0.3333333333333333", "100", "1e-9", "7e-5", "1e300"};
  return pick(r, t);
}
static void group(Rng& r, Plan& p, int ses, const S& name, const VS& dists, int maxThreads, double whole = 0.15) {
  int t = maxThreads <= 1 ? 1 : r.chance(0.15) ? 1 : (int)r.range(2, maxThreads);
  p.add({"group", I(ses), name, threshold(r), pick(r, dists), I(t), r.chance(whole) ? "1" : "0"});
}
static void drawClock(Rng& r, Plan& p) {
  if (r.chance(0.5)) return;
  p.clock.seed = r.next() >> 1;
  p.clock.mode = (int)r.range(0, 4);
  static const std::vector<int64_t> st = {1000, 1000000, 1000000000ll, 6000000000ll, 11000000000ll};
  p.clock.step = pick(r, st);
  if (r.chance(0.3)) p.clock.base = (int64_t)r.range(0, 2000000000ll) * 1000000000ll;
}

// ---------------------------------------------------------------- C01 / C15 / C04 / C03 / C02
static void genGrouping(Rng& r, Plan& p) {
  bool tiny = r.chance(0.4);
  Shape s = drawShape(r, tiny ? 3 : 7, tiny ? 5 : 16);
  if (r.chance(0.1)) s.len = 1;
  hollow(r, s);
  bool far = stretch(r, s, 0.002);
  Made m = addFile(r, p, "/sim/a", s);
  load(p, 0, "a", m);
  if (r.chance(0.3)) p.add({"norm", "0", "a"});
  if (far) { p.add({"group", "0", "a", s.rows > 1 && r.chance(0.4) ? "0" : "1e12", pick(r, LP), I(r.range(2, 4)), "0"}); return; }
  int n = (int)r.range(1, 3);
  bool many = tiny && r.chance(0.06);
  for (int i = 0; i < n; i++) group(r, p, 0, "a", ALLDIST, many ? r.chance(0.15) ? 240 : 44 : tiny ? 5 : 16);
  drawClock(r, p);
}
static void genClock(Rng& r, Plan& p) {
  Shape s = drawShape(r, r.chance(0.5) ? 2 : 6, r.chance(0.5) ? 6 : 14);
  hollow(r, s);
  Made m = addFile(r, p, "/sim/a", s);
  load(p, 0, "a", m);
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) group(r, p, 0, "a", ALLDIST, r.chance(0.4) ? 1 : 6);
  p.clock.seed = r.next() >> 1;
  p.clock.mode = (int)r.range(0, 4);
  static const std::vector<int64_t> st = {1, 1000000, 1000000000ll, 6000000000ll, 10000000000ll, 11000000000ll, 3600000000000ll, 86400ll * 1000000000ll};
  p.clock.step = pick(r, st);
  static const std::vector<int64_t> base = {0, 1, 9999999999ll, 1600000000ll * 1000000000ll, 4102444800ll * 1000000000ll, -1000000000ll};
  p.clock.base = pick(r, base);
}
static void genPartition(Rng& r, Plan& p) {
  Shape s = drawShape(r, 6, 12);
  bool far = stretch(r, s, 0.01);
  Made a = addFile(r, p, "/sim/a", s);
  load(p, 0, "a", a);
  if (far) { p.add({"group", "0", "a", s.rows > 1 && r.chance(0.4) ? "0" : "1e12", pick(r, LP), I(r.range(1, 3)), "0"}); return; }
  bool two = r.chance(0.3);
  if (two) { Made b = addFile(r, p, "/sim/b", drawShape(r, 4, 8)); load(p, 0, "b", b); }
  int n = (int)r.range(1, 6), files = 0;
  if (r.chance(0.4)) p.add({"norm", "0", "a"});
  for (int i = 0; i < n; i++) {
    S d = two && r.chance(0.4) ? "b" : "a";
    switch (r.below(7)) {
      case 0: case 1: case 2: group(r, p, 0, d, ALLDIST, 5); break;
      case 3: p.add({"savegrp", "0", d, "/sim/g" + d}); files |= 1; break;
      case 4: p.add({"loadgrp", "0", d, "/sim/g" + d}); break;
      case 5: p.add({r.chance(0.5) ? "savetxt" : "loadtxt", "0", d, "/sim/t" + d, "0"}); break;
      default: if (r.chance(0.3)) p.add({"norm", "0", d}); else group(r, p, 0, d, LP, 4, 0.4); break;
    }
  }
  group(r, p, 0, "a", ALLDIST, 5);
}
static void genGroupFail(Rng& r, Plan& p) {
  Shape s = drawShape(r, 4, 9);
  hollow(r, s);
  Made m = addFile(r, p, "/sim/a", s);
  load(p, 0, "a", m);
  if (r.chance(0.2)) p.add({"norm", "0", "a"});
  if (r.chance(0.5)) group(r, p, 0, "a", ALLDIST, 4);
  if (r.chance(0.2)) p.add({"paa", "0", "a", I(r.range(1, 3))});
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) {
    if (r.chance(0.2)) {
      static const VS bad = {"nosuch", "euclidean_dtw", "", "Euclidean"};
      if (r.chance(0.5)) p.add({"group", "0", "a", threshold(r), pick(r, bad), I(r.range(1, 3)), "0"});
      else p.add({"group", "0", r.chance(0.3) ? "zz" : "a", threshold(r), "euclidean", I(r.range(-2, 0)), "0"});
    } else group(r, p, 0, "a", ALLDIST, 6, 0.2);
  }
}

// ---------------------------------------------------------------- C05 / C06 / C07
static void genRestore(Rng& r, Plan& p) {
  bool big = r.chance(0.08);
  Shape s = drawShape(r, big ? 12 : 5, big ? 30 : 10);
  s.extreme = r.chance(0.02);
  bool far = stretch(r, s, 0.015);
  Made m = addFile(r, p, "/sim/a", s);
  load(p, 0, "a", m);
  bool norm = r.chance(0.3);
  if (norm) p.add({"norm", "0", "a"});
  if (far) {
    p.add({"group", "0", "a", r.chance(0.4) ? "0" : "1e12", pick(r, LP), I(r.range(1, 3)), s.len > 100 && r.chance(0.1) ? "1" : "0"});
    p.add({"savegrp", "0", "a", "/sim/g0"});
    p.add({"savetxt", "0", "a", "/sim/t0", "0"});
    if (r.chance(0.5)) p.add({"restart", "0", "0", "1"}); else p.add({"unload", "0", "a"});
    load(p, 0, "a", m);
    if (norm) p.add({"norm", "0", "a"});
    if (r.chance(0.7)) p.add({"loadgrp", "0", "a", "/sim/g0"});
    if (p.ops.back().verb() != "loadgrp" || r.chance(0.3)) p.add({"loadtxt", "0", "a", "/sim/t0"});
    return;
  }
  group(r, p, 0, "a", ALLDIST, 4, 0.35);
  p.add({"savegrp", "0", "a", "/sim/g0"});
  int n = (int)r.range(1, 6), g = 1;
  int ses = 0;
  for (int i = 0; i < n; i++) {
    switch (r.below(12)) {
      case 0: p.add({"loadgrp", I(ses), "a", "/sim/g" + I(r.below(g))}); break;
      case 11: {   // a file that was loaded gets other groups, often of the same size, and is loaded again
        bool text = r.chance(0.3);
        S f = text ? S("/sim/t2") : "/sim/g" + I(r.below(g)), d = pick(r, ALLDIST), w = r.chance(0.35) ? "1" : "0";
        for (int j = (int)r.range(2, 3); j > 0; j--) {
          p.add({"group", I(ses), "a", I(r.range(1, 9)) + (r.chance(0.5) ? "" : "e9"), d, "1", w});
          if (text) p.add({"savetxt", I(ses), "a", f, "0"}); else p.add({"savegrp", I(ses), "a", f});
          p.add({text ? "loadtxt" : "loadgrp", I(ses), "a", f});
        }
        break;
      }
      case 1: p.add({"savegrp", I(ses), "a", "/sim/g" + I(r.chance(0.3) ? (int64_t)r.below(g) : g++)}); break;
      case 2: group(r, p, ses, "a", ALLDIST, 3, 0.35); break;
      case 3:   // another session of the same process
        ses++;
        load(p, ses, "a", m);
        if (norm) p.add({"norm", I(ses), "a"});
        p.add({"loadgrp", I(ses), "a", "/sim/g" + I(r.below(g))});
        break;
      case 4:   // another process
        p.add({"restart", "0", "0", "1"});
        load(p, ses, "a", m);
        if (norm) p.add({"norm", I(ses), "a"});
        p.add({"loadgrp", I(ses), "a", "/sim/g" + I(r.below(g))});
        break;
      case 5: p.add({"unload", I(ses), "a"}); load(p, ses, "a", m); if (norm) p.add({"norm", I(ses), "a"}); p.add({"loadgrp", I(ses), "a", "/sim/g" + I(r.below(g))}); break;
      case 6: case 8: p.add({"savetxt", I(ses), "a", "/sim/t0", "0"}); if (r.chance(0.3)) group(r, p, ses, "a", ALLDIST, 2, 0.35); p.add({"loadtxt", I(ses), "a", "/sim/t0"}); break;
      case 9:
        p.add({"savetxt", I(ses), "a", "/sim/t1", "0"});
        if (r.chance(0.5)) p.add({"restart", "0", "0", "1"}); else p.add({"unload", I(ses), "a"});
        load(p, ses, "a", m);
        if (norm) p.add({"norm", I(ses), "a"});
        p.add({"loadtxt", I(ses), "a", "/sim/t1"});
        break;
      default: p.add({"savegrp", I(ses), "a", "/sim/g" + I(g)}); p.add({"loadgrp", I(ses), "a", "/sim/g" + I(g)}); g++; break;
    }
  }
  p.add({"loadgrp", I(ses), "a", "/sim/g" + I(r.below(g))});
}
static void genSaves(Rng& r, Plan& p) {
  int kind = (int)r.below(10);
  Shape s = kind == 0 ? drawShape(r, 40, 40) : kind < 3 ? drawShape(r, 10, 20) : drawShape(r, 4, 9);
  Made m = addFile(r, p, "/sim/a", s);
  load(p, 0, "a", m);
  if (r.chance(0.3)) p.add({"norm", "0", "a"});
  group(r, p, 0, "a", LP, 1, 0.25);
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; i++) {
    S path = r.chance(0.3) ? "/sim/out" : "/sim/o" + I(i);
    if (r.chance(0.05)) path = "/sim/nod/o";
    switch (r.below(4)) {
      case 0: p.add({"save", "0", "a", path, r.chance(0.5) ? " " : ","}); break;
      case 1: case 2: p.add({"savegrp", "0", "a", path}); break;
      default: p.add({"savetxt", "0", "a", path, r.chance(0.4) ? "1" : "0"}); break;
    }
  }
}
// the same rows with one small difference in shape
static S variant(Rng& r, const S& text, const Shape& s) {
  VS l;
  S cur;
  for (char c : text) { if (c == '\n') { l.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) l.push_back(cur);
  char sep = s.sep[0];
  auto fresh = [&](int n) {
    S t;
    for (int c = 0; c < s.startCol; c++) t += S("x") + sep;
    if (s.names) t += S("v") + sep;
    for (int j = 0; j < n; j++) t += (j ? S(1, sep) : S()) + I(r.range(1, 9));
    return t;
  };
  size_t at = r.below(l.size());
  switch (r.below(8)) {
    case 0: case 1: l.insert(l.begin() + (int)r.below(l.size() + 1), fresh((int)r.range(1, s.len))); break;
    case 2: if (l.size() > 1) l.erase(l.begin() + (int)at); break;
    case 3: { size_t e = l[at].find_last_of(s.sep); if (e != S::npos) l[at].resize(e); } break;   // one value fewer
    case 4: l[at] += S(1, sep) + "3"; break;                                                        // one value more
    case 5: case 6: std::swap(l[at], l[(at + 1 + r.below(std::max<size_t>(1, l.size() - 1))) % l.size()]); break;
    default: { size_t k = r.below(l.size()), e = l[at].find_last_of(s.sep); if (e != S::npos && k != at) { l[k] += S(1, sep) + l[at].substr(e + 1); l[at].resize(e); } } break;   // a value moves to another row
  }
  S t;
  for (auto& x : l) t += x + "\n";
  return t;
}
static void genDamage(Rng& r, Plan& p) {
  bool big = r.chance(0.05);
  Shape s = drawShape(r, big ? 16 : 4, big ? 24 : 8);
  bool near = r.chance(0.2);     // intact files, other datasets
  if (near && s.rows > 1 && r.chance(0.5)) s.uneven = true;
  Made m = addFile(r, p, "/sim/a", s);
  load(p, 0, "a", m);
  group(r, p, 0, "a", LP, 1, 0.35);
  bool txt = r.chance(0.25);
  auto save = [&] { if (txt) p.add({"savetxt", "0", "a", "/sim/g", "0"}); else p.add({"savegrp", "0", "a", "/sim/g"}); };
  S ld = txt ? "loadtxt" : "loadgrp";
  save();
  if (r.chance(0.4)) { group(r, p, 0, "a", LP, 1, 0.25); save(); }
  if (r.chance(0.6)) { p.add({"restart", "0", r.chance(0.4) ? "1" : "0", I(r.range(1, 1000000))}); load(p, 0, "a", m); }
  // current groups of the loading dataset
  if (r.chance(0.5)) group(r, p, 0, "a", LP, 1, 0.25);
  int n = (int)r.range(1, 4);
  static const VS hows = {"truncate", "truncate", "flip", "flip", "flip", "set", "zero", "cut", "dup", "swap", "append", "empty", "garbage", "mask", "remove"};
  static const VS numbers = {"digit", "digit", "token", "line"};
  auto num = [&] { return I((int64_t)(r.next() >> 20)); };
  for (int i = 0; i < n; i++) {
    if (r.chance(near ? 0.05 : 0.75)) p.add({"damage", "0", "/sim/g", txt && r.chance(0.5) ? pick(r, numbers) : pick(r, hows), num(), num()});
    if (!near && r.chance(0.15)) {     // altered and without its end
      if (r.chance(0.5)) p.add({"damage", "0", "/sim/g", "flip", num(), num()});
      p.add({"damage", "0", "/sim/g", "tail", num(), num()});
    }
    if (r.chance(near ? 0.8 : 0.2)) {
      // nearly the same dataset: a row more, fewer, shorter, longer or elsewhere
      S nm = "v" + I(i), t = variant(r, p.files[0].second, s);
      p.files.push_back({"/sim/" + nm, t});
      p.add({"load", "0", nm, "/sim/" + nm, s.sep, "0", I(s.startCol), s.names ? "1" : "0"});
      if (r.chance(0.4)) group(r, p, 0, nm, LP, 1, 0.4);
      p.add({ld, "0", nm, "/sim/g"});
    }
    if (r.chance(0.2)) {
      // a dataset of another shape
      Shape t = s;
      switch (r.below(4)) {
        case 0: t.rows += r.chance(0.5) ? 1 : t.rows; break;
        case 1: t.len += 1; break;
        case 2: t.uneven = !t.uneven; if (t.rows == 1) t.rows = 2; break;
        default: if (t.rows > 1) t.rows--; else t.len++; break;
      }
      S nm = "m" + I(i);
      Made o = addFile(r, p, "/sim/" + nm, t);
      load(p, 0, nm, o);
      if (r.chance(0.4)) group(r, p, 0, nm, LP, 1);
      p.add({ld, "0", nm, "/sim/g"});
    }
    p.add({r.chance(0.03) ? txt ? "loadgrp" : "loadtxt" : ld, "0", "a", "/sim/g"});
    if (r.chance(0.2)) group(r, p, 0, "a", LP, 1, 0.25);
  }
}

// ---------------------------------------------------------------- general histories
struct Hist {
  Rng& r;
  Plan& p;
  std::vector<Made> files;
  VS names;
  int sessions = 1;
  bool positive = false;
  double wrong = 0.15;          // share of invalid requests
  VS dists = ALLDIST;
  int maxThreads = 3;
  int64_t mostMatches = 60;
  Hist(Rng& r, Plan& p, int nfiles, int maxRows, int maxLen, bool positive = false) : r(r), p(p), positive(positive) {
    for (int i = 0; i < nfiles; i++) { Shape s = drawShape(r, maxRows, maxLen); s.positive = positive; if (r.chance(0.015)) s.rows = 0; files.push_back(addFile(r, p, "/sim/f" + (r.chance(0.03) ? S((size_t)r.range(40, 240), 'x') : S()) + I(i), s)); }
    files.reserve(16);
    switch (r.below(12)) {
      case 0: names = {"a", "A", "ab"}; break;
      case 3: names = {"a ", "a", " a"}; break;
      case 4: names = {"a/b", "a.b", "a b"}; break;
      case 5: names = {"\xc3\xa9t\xc3\xa9", "-", "a\tb"}; break;
      case 1: { S l((size_t)r.range(20, 300), 'n'); names = {l + "1", l + "2", l}; break; }
      case 2: names = {"10", "1", "01"}; break;
      default: names = {"a", "b", "c"}; break;
    }
    names.resize(1 + r.below(3));
  }
  // what a name probably holds and which state it is in, to draw sensible arguments
  struct Held { const Made* m; bool grouped = false, paa = false; };
  std::map<S, Held> heldBy[3];
  std::map<S, S> groupFiles;              // file -> session:name its groups were saved from
  int cur = 0;                            // session of the request being drawn
  bool opBad = false;
  S ses() { return I(cur); }
  std::map<S, Held>& holds() { return heldBy[cur]; }
  void begin() { cur = (int)r.below((uint64_t)sessions); opBad = r.chance(wrong); }
  bool bad() { return opBad && r.chance(0.5); }
  // mostly a name that is loaded at this point; st: 0 any, 1 grouped, 2 prepared for the approximate search
  S name(int st = 0) {
    if (bad()) return r.chance(0.5) ? S("zz") : pick(r, names);
    VS c;
    for (auto& h : holds()) if (st == 0 || (st == 1 && h.second.grouped) || (st == 2 && h.second.paa)) c.push_back(h.first);
    if (!c.empty()) return pick(r, c);
    if (holds().empty()) return pick(r, names);
    auto it = holds().begin();
    std::advance(it, r.below(holds().size()));
    if (!opBad && st == 1) { groupHere(it->first); }
    if (!opBad && st == 2) { p.add({"paa", ses(), it->first, I(r.range(1, 5))}); it->second.paa = true; }
    return it->first;
  }
  void held(const S& n, const Made& m) { heldBy[cur][n] = Held{&m}; }
  void unloadOp() { begin(); S n = name(); p.add({"unload", ses(), n}); holds().erase(n); }
  void unloadAllOp() { begin(); p.add({"unloadall", ses()}); holds().clear(); }
  void normOp() { begin(); S n = name(); p.add({"norm", ses(), n}); auto it = holds().find(n); if (it != holds().end()) it->second.grouped = it->second.paa = false; }
  void paaOp() { begin(); S n = name(); bool b = bad(); p.add({"paa", ses(), n, I(b ? r.range(-1, 0) : r.chance(0.05) ? r.range(20, 2147483647) : r.range(1, r.chance(0.1) ? 12 : 5))}); auto it = holds().find(n); if (!b && it != holds().end()) it->second.paa = true; }
  int idx(const S& n) {
    auto it = holds().find(n);
    int rows = it == holds().end() ? 3 : std::max(1, it->second.m->sh.rows);
    if (bad()) { static const std::vector<int> b = {-1, 1000, -5}; return r.chance(0.3) ? rows : pick(r, b); }
    return (int)r.below((uint64_t)rows);
  }
  void range(const S& n, int i, int& st, int& en) {
    auto it = holds().find(n);
    int len = it == holds().end() || i < 0 || i >= (int)it->second.m->lens.size() ? 4 : it->second.m->lens[i];
    if (r.chance(0.3)) { st = en = -1; return; }
    if (bad()) { static const std::vector<std::pair<int, int>> b = {{-1, 3}, {2, 2}, {3, 1}, {0, 10000}, {0, -1}, {5, -1}}; auto x = pick(r, b); st = x.first; en = x.second; if (r.chance(0.2)) { st = 0; en = len + 1; } return; }
    st = (int)r.below((uint64_t)std::max(1, len - 1));
    en = (int)r.range(std::min(len, st + (r.chance(0.9) ? 2 : 1)), len);
    if (en <= st) en = st + 1;
  }
  // a file gets other contents
  void changeOp() {
    if (files.size() < 2 || files.size() >= 16) return;
    size_t i = r.below(files.size()), j = r.below(files.size());
    if (files[i].path == files[j].path) return;
    p.add({"damage", "0", files[i].path, "with", files[j].path, "0"});
    Made m = files[j];
    m.path = files[i].path;
    files.push_back(m);
    loadOp();
  }
  void loadOp() {
    begin();
    const Made& m = files[r.below(files.size())];
    S n = pick(r, names);
    for (int i = 0; i < 6 && holds().count(n) && !opBad; i++) n = pick(r, names);   // a taken name is refused
    if (holds().count(n) && !opBad) { p.add({"unload", ses(), n}); holds().erase(n); }
    if (opBad) {
      switch (r.below(6)) {
        case 0: p.add({"load", ses(), n, "/sim/missing", " ", "0", "0", "0"}); return;
        case 1: p.add({"load", ses(), n, "/sim/nod/x", " ", "0", "0", "0"}); return;
        case 2: p.files.push_back({"/sim/bad" + I((int64_t)p.files.size()), "1 2 3\n4 x 6\n"}); p.add({"load", ses(), n, p.files.back().first, " ", "0", "0", "0"}); return;
        case 3: p.files.push_back({"/sim/bad" + I((int64_t)p.files.size()), "1,2,3\n4,,foo\n"}); p.add({"load", ses(), n, p.files.back().first, ",", "0", "0", "0"}); return;
        case 4: p.add({"load", ses(), n, "", " ", "0", "0", "0"}); return;
        default: break;      // possibly a taken name
      }
    }
    int maxRow = 0;
    if (r.chance(0.15) && !m.sh.uneven) maxRow = (int)r.range(1, m.sh.rows + 1);
    p.add({"load", ses(), n, m.path, m.sh.sep, I(maxRow), I(m.sh.startCol), m.sh.names ? "1" : "0"});
    if (!holds().count(n)) held(n, m);
  }
  void groupHere(const S& n) {
    int t = maxThreads <= 1 ? 1 : (int)r.range(1, maxThreads);
    S d = pick(r, dists);
    bool b = bad();
    if (b) { if (r.chance(0.5)) d = "nosuch"; else t = (int)r.range(-1, 0); }
    p.add({"group", ses(), n, threshold(r), d, I(t), r.chance(0.15) ? "1" : "0"});
    auto it = holds().find(n);
    if (!b && it != holds().end()) it->second.grouped = true;
  }
  void groupOp() { begin(); groupHere(name()); }
  S outPath(const char* pre) { if (bad()) return r.chance(0.5) ? "/sim/nod/o" : "/sim/"; return S("/sim/") + pre + I(r.below(3)); }
  void saveOp() { begin(); p.add({"save", ses(), name(), outPath("o"), r.chance(0.5) ? "," : " "}); }
  void saveGroupsOp(bool text) {
    begin();
    S n = name(1), f = r.chance(0.05) ? outPath("o") : outPath(text ? "t" : "g");
    if (text) p.add({"savetxt", ses(), n, f, r.chance(0.2) ? "1" : "0"});
    else p.add({"savegrp", ses(), n, f});
    groupFiles[f] = ses() + ":" + n;
  }
  void loadGroupsOp(bool text) {
    begin();
    // mostly into the dataset the file was saved from
    VS c;
    for (auto& g : groupFiles) if (g.first.compare(0, 6, text ? "/sim/t" : "/sim/g") == 0 && g.second.compare(0, 2, ses() + ":") == 0 && holds().count(g.second.substr(2))) c.push_back(g.first);
    S n, f;
    if (!c.empty() && r.chance(0.8)) { f = pick(r, c); n = bad() ? name() : groupFiles[f].substr(2); }
    else if (c.empty() && !opBad && r.chance(0.8)) { saveGroupsOp(text); f = p.ops.back().a[3]; n = p.ops.back().a[2]; }
    else { n = name(); f = outPath(text ? "t" : "g"); }
    p.add({text ? "loadtxt" : "loadgrp", ses(), n, f});
  }
  void query(int which) {
    begin();
    S t = name(which <= 1 ? 1 : which == 3 ? 2 : 0), q = r.chance(0.6) ? t : name();
    int i = idx(q), st, en;
    range(q, i, st, en);
    int64_t k = bad() ? r.range(-1, 0) : r.range(1, r.chance(mostMatches > 60 ? 0.6 : 0.2) ? mostMatches : 5);
    if (k > 0 && r.chance(0.02)) k = pick(r, std::vector<int64_t>{1000, 100000000, 2147483640});
    S d = bad() ? (r.chance(0.5) ? S("nosuch") : S("")) : pick(r, dists);
    switch (which) {
      case 0: p.add({"best", ses(), t, q, I(i), I(st), I(en)}); break;
      case 1: p.add({"kbest", ses(), I(k), I(bad() ? k - 1 : k + (int64_t)r.below(6)), t, q, I(i), I(st), I(en)}); break;
      case 2: p.add({"kbf", ses(), I(k), t, q, I(i), I(st), I(en), d}); break;
      case 3: p.add({"kpaa", ses(), I(k), t, q, I(i), I(st), I(en), d}); break;
      default: {
        S q2 = name();
        int i2 = idx(q2), st2, en2;
        range(q2, i2, st2, en2);
        bool dtw = r.chance(which == 5 ? 0.95 : 0.6);
        if (!dtw && !opBad) {      // equal lengths
          if (st >= 0 && en - st <= 2 && r.chance(0.7)) { st2 = 0; en2 = en - st; } else { q2 = q; i2 = i; st2 = st; en2 = en; }
        }
        p.add({which == 4 ? "dist" : "match", ses(), q, I(i), I(st), I(en), q2, I(i2), I(st2), I(en2), d + (dtw ? "_dtw" : "")});
      }
    }
  }
  void bandOp() { static const VS b = {"0.1", "0", "0.3", "1", "0.05", "0.5"}; p.add({"band", "0", pick(r, b)}); }
  void askOp() {
    begin();
    S n = name();
    int i = idx(n), st, en;
    range(n, i, st, en);
    switch (r.below(5)) {
      case 0: p.add({"info", ses(), n}); break;
      case 1: p.add({"tsname", ses(), n, I(i)}); break;
      case 2: p.add({"tslen", ses(), n, I(i)}); break;
      case 3: p.add({"ts", ses(), n, I(i), I(st), I(en)}); break;
      default: p.add({"list", ses()}); break;
    }
  }
  void step() {
    bool none = true;
    for (int s = 0; s < sessions; s++) none = none && heldBy[s].empty();
    if (none && r.chance(0.8)) { loadOp(); return; }
    if (r.chance(0.02)) changeOp();
    switch (r.below(24)) {
      case 0: case 1: case 2: loadOp(); break;
      case 3: unloadOp(); break;
      case 4: if (r.chance(0.2)) unloadAllOp(); else loadOp(); break;
      case 5: case 6: normOp(); break;
      case 7: case 8: case 9: groupOp(); break;
      case 10: saveOp(); break;
      case 11: saveGroupsOp(false); break;
      case 12: loadGroupsOp(false); break;
      case 13: saveGroupsOp(true); break;
      case 14: loadGroupsOp(true); break;
      case 15: paaOp(); break;
      case 16: query(0); break;
      case 17: query(1); break;
      case 18: query(2); break;
      case 19: query(3); break;
      case 20: query(4); break;
      case 21: query(5); break;
      case 22: bandOp(); break;
      default: askOp(); break;
    }
  }
};

static void genAtomic(Rng& r, Plan& p) {       // C08
  Hist h(r, p, 2, 4, 8);
  h.wrong = 0.06;
  // files that later loads may read are written first
  load(p, 0, "a", h.files[0]);
  h.held("a", h.files[0]);
  h.loadOp();
  group(r, p, 0, "a", ALLDIST, 2);
  if (h.holds().count("a")) h.holds()["a"].grouped = true;
  p.add({"savegrp", "0", "a", "/sim/keep"});
  p.add({"savetxt", "0", "a", "/sim/keept", "0"});
  if (r.chance(0.3)) p.add({"damage", "0", "/sim/keep", "flip", I((int64_t)(r.next() >> 20)), "1"});
  if (r.chance(0.5)) { p.add({"paa", "0", "a", I(r.range(1, 3))}); if (h.holds().count("a")) h.holds()["a"].paa = true; }
  int n = (int)r.range(3, 9);
  for (int i = 0; i < n; i++) {
    int c = (int)r.below(13);
    if (c <= 4) h.begin();
    switch (c) {
      case 0: p.add({"loadgrp", "0", r.chance(0.7) ? S("a") : h.name(), "/sim/keep"}); break;
      case 1: p.add({"loadtxt", "0", r.chance(0.7) ? S("a") : h.name(), "/sim/keept"}); break;
      case 2: p.add({"savegrp", "0", h.name(1), "/sim/junk" + I(i)}); break;
      case 3: p.add({"save", "0", h.name(), "/sim/junk" + I(i), ","}); break;
      case 4: p.add({"savetxt", "0", h.name(1), "/sim/junk" + I(i), r.chance(0.3) ? "1" : "0"}); break;
      case 5: h.paaOp(); break;
      case 6: case 12: h.groupOp(); break;
      case 7: h.loadOp(); break;
      case 8: h.normOp(); break;
      case 9: h.unloadOp(); break;
      default: h.query((int)r.below(6)); break;
    }
  }
  for (int i = 0; i < 3; i++) h.query((int)r.below(6));
}
static void genLoad(Rng& r, Plan& p) {         // C09
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(10);
    Shape s = k == 0 ? drawShape(r, 60, 400) : k < 3 ? drawShape(r, 20, 120) : drawShape(r, 5, 10);
    if (k == 0) { s.rows = (int)r.range(20, 60); s.len = (int)r.range(60, 300); if (r.chance(0.2)) { s.rows = (int)r.range(2, 4); s.len = (int)r.range(500, 2000); } }
    else stretch(r, s, 0.02);
    s.wide = r.chance(0.1);
    if (r.chance(0.1)) s.len = 1;
    Made m = addFile(r, p, "/sim/f" + (r.chance(0.02) ? S((size_t)r.range(40, 240), 'x') : S()) + I(i), s);
    if (r.chance(0.1)) {      // malformed
      S& t = p.files.back().second;
      if (!t.empty()) { size_t at = r.below(t.size()); t.insert(at, r.chance(0.5) ? "x " : "abc"); }
    } else if (r.chance(0.08) && !s.names && s.startCol == 0) {
      S& t = p.files.back().second;
      size_t at = t.find('\n');
      if (at != S::npos) t.insert(at, "\n");
    } else if (r.chance(0.15)) {        // unusual numbers, some of them out of range
      static const VS odd = {"1e400", "-1e400", "1e-320", "inf", "-inf", "nan", "0x1A", "+3", ".5", "5.", "-0", "1E3", "1e-300", "1.7e308", "123456789012345678901234567890", "0.1234567890123456789"};
      S& t = p.files.back().second;
      size_t at = t.find('\n', r.below(t.size() + 1));
      if (at == S::npos) at = t.size();
      t.insert(at, s.sep.substr(0, 1) + pick(r, odd));
    } else if (r.chance(0.06)) {        // lines ending with a carriage return
      S& t = p.files.back().second, u;
      for (char c : t) u += c == '\n' ? S("\r\n") : S(1, c);
      t = u;
    }
    int maxRow = 0;
    if (r.chance(0.2)) maxRow = r.chance(0.1) ? pick(r, std::vector<int>{-1, -1000, 1000000, 2147483647}) : (int)r.range(1, s.rows + 1);
    int startCol = r.chance(0.02) ? (int)r.range(0, s.len + 4) : s.startCol;
    p.add({"load", "0", "d" + I(r.chance(0.15) ? 0 : i), m.path, s.sep, I(maxRow), I(startCol), s.names ? "1" : "0"});
    if (r.chance(0.15)) p.add({"load", "0", "e", r.chance(0.5) ? "/sim/missing" : "/sim/nod/f", " ", "0", "0", "0"});
  }
  // the same file again after it got other contents
  if (r.chance(0.25)) {
    Op last;
    for (auto& o : p.ops) if (o.a[2][0] == 'd' && (last.a.empty() || r.chance(0.5))) last = o;
    if (n > 1 && r.chance(0.6)) {
      Op other = p.ops[r.below(p.ops.size())];
      if (other.a[3] == last.a[3] || other.a[2] == "e") other = p.ops.front();
      p.add({"damage", "0", last.a[3], "with", other.a[3], "0"});
      S at = last.a[3];
      last = other;
      last.a[3] = at;
    } else if (r.chance(0.3)) {
      p.add({"damage", "0", last.a[3], "fold", I((int64_t)(r.next() >> 20)), I(last.a[4][0])});
    } else {
      static const VS how = {"line", "line", "digit", "token", "truncate", "empty", "remove"};
      for (int k = (int)r.range(1, 3); k > 0; k--) p.add({"damage", "0", last.a[3], pick(r, how), I((int64_t)(r.next() >> 20)), I((int64_t)(r.next() >> 20))});
    }
    p.add({"load", "0", "g", last.a[3], last.a[4], last.a[5], last.a[6], last.a[7]});
  }
}
static void genDataRound(Rng& r, Plan& p) {    // C10
  int k = (int)r.below(10);
  Shape s = k == 0 ? drawShape(r, 40, 200) : drawShape(r, 6, 12);
  if (r.chance(0.1)) s.len = 1;
  s.wide = r.chance(0.15);
  s.extreme = r.chance(0.05);
  Made m = addFile(r, p, "/sim/f", s);
  bool special = r.chance(0.03);        // values that are not numbers; what normalizing makes of them is not defined
  for (int i = special ? (int)r.range(1, 3) : 0; i > 0; i--) {
    S& t = p.files.back().second;
    size_t at = t.find('\n', r.below(t.size() + 1));
    if (at == S::npos) at = t.size();
    t.insert(at, s.sep.substr(0, 1) + pick(r, VS{"inf", "-inf", "nan", "5e-324"}));
  }
  load(p, 0, "a", m);
  int n = (int)r.range(1, 5), o = 0;
  static const VS seps = {" ", ",", ";", "\t", "|"};
  S cur = "a";
  for (int i = 0; i < n; i++) {
    S sep = pick(r, seps);
    switch (r.below(6)) {
      case 0: if (!special) p.add({"norm", "0", cur}); break;
      case 1: group(r, p, 0, cur, LP, 1); p.add({"save", "0", cur, "/sim/o" + I(o++), sep}); break;
      case 2: p.add({"save", "0", cur, "/sim/o", sep}); break;
      case 3:
        p.add({"save", "0", cur, "/sim/o" + I(o), sep});
        if (r.chance(0.4)) p.add({"restart", "0", "0", "1"});
        p.add({"load", "0", "b" + I(o), "/sim/o" + I(o), sep, "0", "0", s.names ? "1" : "0"});
        cur = "b" + I(o);
        o++;
        break;
      default: p.add({"save", "0", cur, "/sim/o" + I(o++), sep}); break;
    }
  }
  p.add({"save", "0", cur, "/sim/last", pick(r, seps)});
}
static void genBooks(Rng& r, Plan& p) {        // C11
  Hist h(r, p, 2, 4, 7);
  h.sessions = r.chance(0.2) ? 2 : 1;
  h.wrong = 0.12;
  int n = (int)r.range(4, 18);
  if (r.chance(0.004)) {                       // many datasets at once, long sessions
    for (int i = (int)r.range(20, 280); i > 0; i--) h.names.push_back("d" + I(i));
    for (auto& x : VS(h.names)) if (r.chance(0.95)) h.loadOp();
    if (r.chance(0.3)) h.unloadAllOp();
    n = (int)r.range(10, 40);
  }
  h.loadOp();
  for (int i = 0; i < n; i++) h.step();
}
static void genAnswers(Rng& r, Plan& p) {      // C12
  Hist h(r, p, 2, 4, 8, true);
  h.wrong = 0.04;
  h.maxThreads = 1;
  h.loadOp();
  if (r.chance(0.5)) h.normOp();
  h.groupOp();
  if (r.chance(0.5)) h.paaOp();
  int n = (int)r.range(3, 10);
  if (r.chance(0.003)) { n = (int)r.range(40, 150); h.wrong = 0; }
  for (int i = 0; i < n; i++) {
    switch (r.below(n > 10 ? 40 : 12)) {
      case 0: h.loadOp(); break;
      case 1: h.groupOp(); break;
      case 2: h.normOp(); break;
      case 3: h.bandOp(); break;
      case 4: h.paaOp(); break;
      case 5: h.unloadOp(); h.loadOp(); break;
      case 6: h.loadGroupsOp(r.chance(0.3)); break;
      default: h.query((int)r.below(6)); break;
    }
  }
  for (int i = 0; i < 4; i++) h.query((int)r.below(6));
}
static void genGenuine(Rng& r, Plan& p) {      // C13
  // the quotient distances are undefined on zeros, so they are used with positive data only
  bool lp = r.chance(0.5);
  bool tall = r.chance(0.06), large = r.chance(0.004);
  bool longer = r.chance(0.2);
  Hist h(r, p, 2, tall ? 20 : !large ? 5 : longer ? 3 : 10, tall ? 4 : !large ? 9 : longer ? 36 : 20, !lp || r.chance(0.3));
  if (large) h.mostMatches = 700;
  if (lp) h.dists = LP;
  h.wrong = 0.05;
  h.maxThreads = r.chance(0.3) ? 4 : 1;
  h.names = {"a", "b"};
  load(p, 0, "a", h.files[0]);
  load(p, 0, "b", h.files[1]);
  h.held("a", h.files[0]); h.held("b", h.files[1]);
  if (large && r.chance(0.6)) p.add({"band", "0", "1"});
  else if (r.chance(0.3)) h.bandOp();
  for (auto n : {"a", "b"}) if (r.chance(0.8)) { group(r, p, 0, n, h.dists, h.maxThreads, 0.25); h.holds()[n].grouped = true; }
  int n = (int)r.range(2, 8);
  for (int i = 0; i < n; i++) {
    switch (r.below(10)) {
      case 0: h.groupOp(); break;
      case 1: h.bandOp(); break;
      case 2: h.loadGroupsOp(r.chance(0.3)); break;
      case 3: h.paaOp(); break;
      case 4: if (lp && r.chance(0.5)) h.normOp(); else h.query((int)r.below(4)); break;
      default: h.query((int)r.below(4)); break;
    }
  }
  for (int i = 0; i < 3; i++) h.query((int)r.below(4));
}
static void genResources(Rng& r, Plan& p) {    // C14
  Hist h(r, p, 2, 4, 7, r.chance(0.5));
  h.wrong = 0.08;
  h.loadOp();
  int n = (int)r.range(2, 9);
  for (int i = 0; i < n; i++) h.step();
  p.repeat = 5;
}
static void genParallel(Rng& r, Plan& p) {     // C17
  int k = (int)r.range(2, 3);
  std::vector<Hist*> hs;
  for (int s = 0; s < k; s++) {
    Plan q;
    Hist h(r, q, 1, 3, 6, true);
    h.wrong = 0.04;
    h.maxThreads = r.chance(0.3) ? 2 : 1;
    h.loadOp();
    if (r.chance(0.6)) h.groupOp();
    int n = (int)r.range(2, 6);
    for (int i = 0; i < n; i++) h.step();
    q.ops.erase(std::remove_if(q.ops.begin(), q.ops.end(), [](const Op& o) { return o.verb() == "band"; }), q.ops.end());
    // own names for files of this session
    auto own = [&](S x) { if (x.compare(0, 5, "/sim/") == 0 && x.size() > 5 && x.compare(0, 9, "/sim/nod/") != 0) x = "/sim/s" + I(s) + "_" + x.substr(5); return x; };
    for (auto& f : q.files) p.files.push_back({own(f.first), f.second});
    for (auto& o : q.ops) { Op c = o; c.id = p.nextId(); c.a[1] = I(s); for (auto& x : c.a) x = own(x); p.ops.push_back(c); }
  }
}

// ---------------------------------------------------------------- C16
static void genCli(Rng& r, Plan& p) {
  Shape s1 = drawShape(r, 3, 6), s2 = drawShape(r, 3, 6);
  s1.sep = s2.sep = " "; s1.positive = s2.positive = true; s1.startCol = s2.startCol = 0;
  s1.names = s2.names = false;
  std::vector<Made> f = {addFile(r, p, "/sim/f0", s1), addFile(r, p, "/sim/f1", s2)};
  p.files.push_back({"/sim/bad", "1 2 3\n4 x 6\n"});
  p.nprocs = r.chance(0.5) ? 1 : (int)r.range(2, 6);
  VS names = {"a", "b"};
  std::map<S, const Made*> holds;
  std::set<S> grouped;
  std::map<S, S> groupFiles;
  bool sane = true;
  auto nm = [&]() {
    if (!sane && r.chance(0.5)) return r.chance(0.3) ? S("zz") : pick(r, names);
    if (holds.empty()) return pick(r, names);
    auto it = holds.begin();
    std::advance(it, r.below(holds.size()));
    return it->first;
  };
  auto cli = [&](const S& l) { p.add({"cli", l}); };
  // a file with other separators, names or columns to skip
  Shape s3 = drawShape(r, 4, 5);
  s3.positive = true;
  if (s3.sep.find('\t') != S::npos) s3.sep = ",";
  f.reserve(3);
  if (r.chance(0.3)) f.push_back(addFile(r, p, "/sim/f2", s3));
  auto load = [&](const S& n, int k) {
    S l = "load " + n + " /sim/f" + I(k);
    if (k == 2) {
      S e;
      for (char c : s3.sep) e += c == ' ' ? S("\\s") : S(1, c);
      l += " " + e;
      if (s3.names || s3.startCol || r.chance(0.5)) l += " " + I(r.chance(0.3) ? r.range(1, 3) : 0) + " " + I(s3.startCol);
      if (s3.names) l += " 1";
    } else if (r.chance(0.1)) l += " \\s " + I(r.range(1, 3));
    cli(l);
    if (!holds.count(n)) holds[n] = &f[(size_t)k];
  };
  auto gname = [&]() {
    if (sane && grouped.empty() && !holds.empty()) { S n = nm(); cli("group " + n + " " + pick(r, VS{"0.1", "0.5", "1"})); grouped.insert(n); return n; }
    if (!sane || grouped.empty()) return nm();
    auto it = grouped.begin();
    std::advance(it, r.below(grouped.size()));
    return *it;
  };
  auto row = [&](const S& n) { auto it = holds.find(n); if (!sane && r.chance(0.4)) return I(r.range(-1, 4)); return I(it == holds.end() ? 0 : r.below(std::max<size_t>(1, it->second->lens.size()))); };
  auto part = [&](const S& n, const S& i) {      // start and end within the row
    auto it = holds.find(n);
    int len = it == holds.end() || atoi(i.c_str()) < 0 || atoi(i.c_str()) >= (int)it->second->lens.size() ? 4 : it->second->lens[atoi(i.c_str())];
    if (!sane && r.chance(0.5)) return I(r.range(-1, 4)) + " " + I(r.range(0, 9));
    int st = (int)r.below((uint64_t)std::max(1, len - 1));
    return I(st) + " " + I(r.range(std::min(len, st + 2), len));
  };
  static const VS odd = {"", "   ", "// a comment", "nosuch", "help", "help load", "help nosuch", "list dataset", "list distance", "list", "list foo", "timer", "timer on", "timer off", "timer x",
                         "load", "load a", "group a", "group a x", "sim", "ksim", "print", "print a x", "distance a 0", "unload", "normalize", "saveGroups a", "loadGroups a", "load a b c d e f g h", "group a 1 2 3 4",
                         "ksim 0 a a 0", "ksim x a a 0", "print a 99999999999", "distance a 0 0 1 a x 0 1", "exit now", "quit 1 2", "help a b"};
  auto oddOne = [&]() {
    S x((size_t)r.range(60, 3000), 'x');
    switch (r.below(20)) {
      case 0: return "// " + x;
      case 1: return x;
      case 2: return "load " + x + " /sim/none";
      case 3: return "unload " + x;
      case 4: return "help " + x;
      case 5: { S l = pick(r, VS{"list", "group a", "nosuch", "ksim 1", "print a", "exitt"}); for (int i = (int)r.range(20, 200); i > 0; i--) l += " " + I(i); return l; }
      case 6: return "print a 0 0 " + S((size_t)r.range(12, 400), '9');
      case 7: return "save a /sim/nod/" + x;
      case 8: return "save " + nm() + " /sim/" + x.substr(0, 60 + x.size() % 190);
      case 9: return "print " + S((size_t)r.range(1, 400), ' ') + nm() + S((size_t)r.range(1, 400), ' ') + "0 0" + S((size_t)r.range(1, 400), ' ') + "1" + (r.chance(0.3) ? S((size_t)r.range(1, 400), ' ') : S());
      default: return pick(r, odd);
    }
  };
  int n = (int)r.range(3, 12);
  bool lengthy = r.chance(0.01);
  if (lengthy) n = (int)r.range(40, 300);
  double sanity = lengthy && r.chance(0.5) ? 0.2 : 0.75;
  if (r.chance(0.85)) load("a", 0);
  for (int i = 0; i < n; i++) {
    int which = (int)r.below(20);
    sane = r.chance(sanity);
    if (sane && holds.empty() && r.chance(0.7)) which = 0;
    switch (which) {
      case 0: case 1: case 2:
        if (sane) { S x = pick(r, names); if (holds.count(x)) x = x == "a" ? "b" : "a"; if (holds.count(x)) { cli("unload " + x); holds.erase(x); grouped.erase(x); } load(x, (int)r.below(f.size())); }
        else cli("load " + pick(r, names) + " " + pick(r, VS{"/sim/f0", "/sim/f1", "/sim/none", "/sim/bad", "/sim/nod/x", "/sim/f0 , 0", "/sim/f0 x y"}));
        break;
      case 3: { S d = nm(); cli("unload " + d); holds.erase(d); grouped.erase(d); } break;
      case 4: { S d = nm(); cli("normalize " + d); grouped.erase(d); } break;
      case 5: case 6: {
        S d = nm();
        cli("group " + d + " " + (sane ? pick(r, VS{"0.1", "0.5", "1", "0.123456789"}) : pick(r, VS{"0.5", "x", "-1", ""})) + (r.chance(0.5) ? " " + (sane ? pick(r, VS{"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"}) : pick(r, VS{"nosuch", "euclidean", "euclidean_dtw"})) : ""));
        if (sane && holds.count(d)) grouped.insert(d);
      } break;
      case 7: cli("save " + nm() + " " + pick(r, sane ? VS{"/sim/o0", "/sim/o1", "/sim/f1"} : VS{"/sim/nod/o", "/sim/o0"}) + (r.chance(0.4) ? " ," : "")); break;
      case 8: { S d = gname(), g = pick(r, sane ? VS{"/sim/g0", "/sim/g1"} : VS{"/sim/nod/g", "/sim/g0"}); cli("saveGroups " + d + " " + g + (r.chance(0.2) ? " 1" : "")); groupFiles[g] = d; } break;
      case 9: {
        S g = pick(r, VS{"/sim/g0", "/sim/g1", "/sim/f0", "/sim/none"});
        if (sane) {
          if (groupFiles.empty()) { S d = gname(); cli("saveGroups " + d + " /sim/g0"); groupFiles["/sim/g0"] = d; }
          g = groupFiles.begin()->first;
        }
        cli("loadGroups " + (sane && holds.count(groupFiles[g]) ? groupFiles[g] : nm()) + " " + g);
      } break;
      case 10: { S d = gname(), q = nm(), x = row(q); cli("sim " + d + " " + q + " " + x + (r.chance(0.5) ? " " + (sane || r.chance(0.7) ? part(q, x) : I(r.range(0, 2))) : "")); } break;
      case 11: case 15: {
        S d = which == 11 ? gname() : nm(), q = nm(), x = row(q);
        int64_t k = r.range(sane ? 1 : -1, 4);
        S a = which == 11 ? "ksim " : "ksimBF ";
        a += I(k) + " " + d + " " + q + " " + x;
        int form = (int)r.below(4);
        if (form & 1) a += " " + part(q, x);
        if (which == 11 && (form & 2)) a += " " + I(k + r.range(sane ? 0 : -2, 3));
        else if (which == 15 && form == 3 && !sane) a += " 1";
        cli(a);
      } break;
      case 12: case 13: {
        S q = nm(), x = row(q), q2 = nm(), x2 = row(q2);
        cli("distance " + q + " " + x + " " + part(q, x) + " " + q2 + " " + x2 + " " + part(q2, x2) + (sane && r.chance(0.3) ? S() : " " + (sane ? pick(r, ALLDIST) + "_dtw" : pick(r, VS{"euclidean", "manhattan_dtw", "nosuch"}))));
      } break;
      case 14: { S q = nm(), x = row(q); cli("print " + q + " " + x + (sane || r.chance(0.7) ? " " + part(q, x) : S(" 0"))); } break;
      case 16: if (r.chance(0.6)) { p.add({"eof"}); p.add({"cli", r.chance(0.7) ? "n" : pick(r, VS{"N", "no", "x", "y", ""})}); } else cli(oddOne()); break;
      case 17: cli(pick(r, VS{"list dataset", "timer on", "timer off", "list distance"})); break;
      default: cli(oddOne()); break;
    }
  }
  switch (r.below(4)) {
    case 0: cli("exit"); break;
    case 1: cli("quit"); break;
    case 2: p.add({"eof"}); p.add({"cli", r.chance(0.5) ? "y" : ""}); break;
    default: p.add({"eof"}); break;
  }
}

// ---------------------------------------------------------------- registry
static std::vector<Profile> build() {
  std::vector<Profile> v;
  auto add = [&](const S& id, void (*gen)(Rng&, Plan&), int quick, int thorough) -> Profile& {
    v.push_back(Profile());
    v.back().id = id; v.back().gen = gen; v.back().quickRuns = quick; v.back().thoroughRuns = thorough;
    return v.back();
  };
  { auto& p = add("C01", genGrouping, 8000, 200000);
    p.o.groupRef = p.o.threads = true; p.o.mustOk = {"group", "load", "norm"}; p.concurrent = true; }
  { auto& p = add("C02", genPartition, 8000, 200000);
    p.o.partition = true; p.concurrent = true;
    p.fs.kinds = {K_ALLOC, K_ALLOC, K_READ, K_WRITE}; p.fs.none = 0.7; p.fs.max = 2; }
  { auto& p = add("C03", genGroupFail, 15000, 375000);
    p.o.groupRef = p.o.threads = p.o.snapOnFail = p.o.retry = p.o.refuse = true; p.o.mustOk = {"group"}; p.concurrent = true;
    p.fs.kinds = {K_ALLOC, K_ALLOC, K_ALLOC, K_THREAD}; p.fs.verbs = {"group"}; p.fs.none = 0.1; p.fs.max = 2; }
  { auto& p = add("C04", genClock, 16000, 400000);
    p.o.groupRef = true; p.o.mustOk = {"group"}; p.concurrent = true;
    p.fs.kinds = {K_CLOCK}; p.fs.verbs = {"group"}; p.fs.none = 0.2; p.fs.max = 4; }
  { auto& p = add("C05", genRestore, 10000, 250000);
    p.o.groupFile = p.o.restoredQueries = true; p.o.mustOk = {"savegrp", "loadgrp", "savetxt", "loadtxt", "load", "norm", "group"};
    p.fs.kinds = {K_READ, K_WRITE}; p.fs.benign = true; p.fs.none = 0.3; p.fs.max = 4; }
  { auto& p = add("C06", genSaves, 24000, 600000);
    p.o.saveComplete = p.o.snapOnFail = p.o.retry = true; p.o.mustOk = {"save", "savegrp", "savetxt"};
    p.fs.kinds = {K_OPEN, K_WRITE, K_WRITE, K_CLOSE, K_DISKFULL, K_DISKFULL, K_SYNC, K_RENAME}; p.fs.verbs = {"save", "savegrp", "savetxt"}; p.fs.none = 0.08; p.fs.max = 2; }
  { auto& p = add("C07", genDamage, 30000, 750000);
    p.o.groupFile = p.o.snapOnFail = true;
    p.fs.kinds = {K_CRASH, K_CRASH, K_READ}; p.fs.verbs = {"savegrp", "loadgrp", "savetxt", "loadtxt"}; p.fs.none = 0.4; p.fs.max = 2; }
  { auto& p = add("C08", genAtomic, 15000, 375000);
    p.o.snapOnFail = true; p.twin = true; p.concurrent = true;
    p.fs.kinds = {K_ALLOC, K_ALLOC, K_ALLOC, K_ALLOC, K_THREAD, K_OPEN, K_READ, K_WRITE, K_CLOSE, K_SEEK, K_DISKFULL}; p.fs.none = 0.1; p.fs.max = 4; }
  { auto& p = add("C09", genLoad, 20000, 500000);
    p.o.loadExact = p.o.books = p.o.retry = p.o.refuse = true; p.o.mustOk = {"load"};
    p.fs.kinds = {K_READ, K_READ, K_READ, K_SEEK, K_OPEN, K_CLOSE, K_ALLOC}; p.fs.verbs = {"load"}; p.fs.none = 0.1; p.fs.max = 2; }
  { auto& p = add("C10", genDataRound, 30000, 750000);
    p.o.dataRound = true; p.o.mustOk = {"save", "load"};
    p.fs.kinds = {K_READ, K_WRITE}; p.fs.verbs = {"save", "load"}; p.fs.benign = true; p.fs.none = 0.3; p.fs.max = 3; }
  { auto& p = add("C11", genBooks, 40000, 1000000);
    p.o.books = p.o.refuse = true; p.o.mustOk = {"load", "unload", "unloadall", "norm", "group", "info", "tsname", "tslen", "ts"};
    p.fs.kinds = {K_ALLOC, K_ALLOC, K_READ, K_WRITE, K_OPEN, K_SEEK, K_THREAD}; p.fs.none = 0.4; p.fs.max = 3; p.concurrent = true; }
  { auto& p = add("C12", genAnswers, 30000, 750000);
    p.o.recordFiles = p.o.growth = true; p.isolate = true;
    p.fs.kinds = {K_ALLOC}; p.fs.none = 0.6; p.fs.max = 2; }
  { auto& p = add("C13", genGenuine, 30000, 750000);
    p.o.genuine = p.o.refuse = true; p.o.mustOk = {"best", "kbest", "kbf", "kpaa", "paa"}; p.concurrent = true;
    p.fs.kinds = {K_ALLOC}; p.fs.none = 0.75; p.fs.max = 2; }
  { auto& p = add("C14", genResources, 40000, 1000000);
    p.o.resources = true; p.concurrent = true;
    p.fs.kinds = {K_ALLOC, K_ALLOC, K_ALLOC, K_ALLOC, K_READ, K_WRITE, K_OPEN, K_CLOSE, K_THREAD, K_DISKFULL}; p.fs.none = 0.2; p.fs.max = 2; }
  { auto& p = add("C15", genGrouping, 10000, 250000);
    p.races = true; p.concurrent = true; }
  { auto& p = add("C16", genCli, 40000, 1000000);
    p.kind = "cli"; p.concurrent = true;
    p.fs.kinds = {K_ALLOC, K_ALLOC, K_ALLOC, K_OPEN, K_READ, K_WRITE, K_CLOSE, K_THREAD, K_DISKFULL}; p.fs.none = 0.35; p.fs.max = 2; }
  { auto& p = add("C17", genParallel, 8000, 200000);
    p.kind = "par"; p.races = true; p.concurrent = true;
    p.fs.kinds = {K_ALLOC, K_THREAD, K_READ}; p.fs.none = 0.8; p.fs.max = 1; }
  return v;
}
static const std::vector<Profile>& all() { static std::vector<Profile>* v = new std::vector<Profile>(build()); return *v; }
const Profile* findProfile(const S& id) { for (auto& p : all()) if (p.id == id) return &p; return nullptr; }
VS profileIds() { VS r; for (auto& p : all()) r.push_back(p.id); return r; }
