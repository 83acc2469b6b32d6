#include "plan.hpp"

#include <cstdio>
#include <cstring>
#include <sstream>

std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    if (c == '%' || c <= ' ' || c >= 127) { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    else r += (char)c;
  }
  return r.empty() ? "%" : r;
}
std::string unesc(const std::string& s) {
  if (s == "%") return "";
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else r += s[i];
  }
  return r;
}
std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
std::string opText(const Op& o) {
  std::string s;
  for (size_t i = 0; i < o.a.size(); i++) { if (i) s += ' '; s += esc(o.a[i]); }
  return s;
}
std::string Plan::text() const {
  std::ostringstream o;
  o << "genexsim 1\n";
  o << "property " << prop << "\nprofile " << esc(profile) << "\nseed " << seed << "\n";
  o << "sched " << sched.policy << ' ' << sched.seed << ' ' << sched.mean << ' ' << num(sched.psync) << ' ' << sched.depth << ' '
    << sched.horizon << ' ' << sched.victim << ' ' << num(sched.pspur) << "\n";
  o << "clock " << clock.base << ' ' << clock.mode << ' ' << clock.step << ' ' << clock.seed << "\n";
  o << "nprocs " << nprocs << "\nrepeat " << repeat << "\nfill " << fill << "\nquarantine " << quarantine << "\n";
  for (auto& kv : opt) o << "opt " << esc(kv.first) << ' ' << esc(kv.second) << "\n";
  for (auto& f : files) o << "file " << esc(f.first) << ' ' << esc(f.second) << "\n";
  for (auto& p : ops) o << "op " << p.id << ' ' << opText(p) << "\n";
  for (auto& f : faults)
    o << "fault " << f.op << ' ' << rt::kindName[f.kind] << ' ' << f.nth << ' ' << f.arg << ' ' << f.err << ' ' << f.sticky << "\n";
  for (auto& d : dec) o << "decide " << d.step << ' ' << d.val << "\n";
  return o.str();
}
bool Plan::parse(const std::string& text, Plan& p, std::string& err) {
  std::istringstream in(text);
  std::string line;
  if (!std::getline(in, line) || line != "genexsim 1") { err = "not a replay file"; return false; }
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k, s, t;
    l >> k;
    if (k == "property") l >> p.prop;
    else if (k == "profile") { l >> s; p.profile = unesc(s); }
    else if (k == "seed") l >> p.seed;
    else if (k == "sched") l >> p.sched.policy >> p.sched.seed >> p.sched.mean >> p.sched.psync >> p.sched.depth >> p.sched.horizon >> p.sched.victim >> p.sched.pspur;
    else if (k == "clock") l >> p.clock.base >> p.clock.mode >> p.clock.step >> p.clock.seed;
    else if (k == "nprocs") l >> p.nprocs;
    else if (k == "repeat") l >> p.repeat;
    else if (k == "fill") l >> p.fill;
    else if (k == "quarantine") l >> p.quarantine;
    else if (k == "opt") { l >> s >> t; p.opt[unesc(s)] = unesc(t); }
    else if (k == "file") { l >> s >> t; p.files.push_back({unesc(s), unesc(t)}); }
    else if (k == "op") { Op o; l >> o.id; while (l >> s) o.a.push_back(unesc(s)); if (o.a.empty()) { err = "empty op"; return false; } p.ops.push_back(o); }
    else if (k == "fault") {
      rt::Fault f;
      l >> f.op >> s >> f.nth >> f.arg >> f.err >> f.sticky;
      f.kind = -1;
      for (int i = 0; i < rt::NKIND; i++) if (s == rt::kindName[i]) f.kind = i;
      if (f.kind < 0) { err = "bad fault kind"; return false; }
      p.faults.push_back(f);
    } else if (k == "decide") { rt::Dec d; l >> d.step >> d.val; p.dec.push_back(d); }
    else if (k == "expect") { /* informative: recorded verdict */ l >> s; std::string rest; std::getline(l, rest); p.opt["expect_" + s] = rest.size() ? rest.substr(1) : ""; }
    else { err = "unknown line: " + line; return false; }
  }
  return true;
}
