// Turns the raw recording of vp_sched.cpp into events: addresses become small numbers, accesses of memory that only one thread
// ever touched (or that nobody wrote) and operations on mutexes and atomics that only one thread ever used are left out.
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
struct Rec { uint8_t k, t; uint16_t x; uint32_t n; uint64_t a, pc; };
struct R { Rec r; string s; };
static void trace(vector<R>& v) {
  vector<uint64_t> cuts; map<uint64_t, set<int>> users; set<uint64_t> named;
  for (auto& x : v) { if (x.r.k == 'r' || x.r.k == 'w') { cuts.push_back(x.r.a); cuts.push_back(x.r.a + x.r.n); } else if (strchr("lubLSM", x.r.k)) users[x.r.a].insert(x.r.t); else if (x.r.k == 'n') named.insert(x.r.a); }
  sort(cuts.begin(), cuts.end()); cuts.erase(unique(cuts.begin(), cuts.end()), cuts.end());
  struct Seg { int first = -1; bool multi = false, wr = false; int id = 0; }; vector<Seg> seg(cuts.size());
  auto at = [&](uint64_t a) { return lower_bound(cuts.begin(), cuts.end(), a) - cuts.begin(); };
  for (auto& x : v) if (x.r.k == 'r' || x.r.k == 'w') for (size_t i = at(x.r.a); cuts[i] < x.r.a + x.r.n; ++i) { Seg& g = seg[i]; if (g.first < 0) g.first = x.r.t; else if (g.first != x.r.t) g.multi = true; if (x.r.k == 'w') g.wr = true; }
  int nl = 0, nsync = 0; map<uint64_t, int> sy; auto sid = [&](uint64_t a) { int& i = sy[a]; if (!i) i = ++nsync; return i; };
  vector<int> rd, wr; vector<long> rp, wp; int mt = -1;
  auto list = [](auto& l) { string s = "["; for (size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + to_string(l[i]); return s + "]"; };
  auto flush = [&] { if (mt >= 0 && (rd.size() || wr.size())) cout << "{\"e\":\"mem\",\"t\":" << mt << ",\"r\":" << list(rd) << ",\"w\":" << list(wr) << ",\"rp\":" << list(rp) << ",\"wp\":" << list(wp) << "}\n"; rd.clear(); wr.clear(); rp.clear(); wp.clear(); };
  set<int> rs, ws; map<uint64_t, int> ver; map<pair<uint64_t, int>, int> got;   // a load that tells its thread nothing new is left out
  // a run that does not come to its end is told by its last event: of such a run only the beginning is kept
  const bool endless = !v.empty() && v.back().r.k == 'x' && v.back().s.compare(0, 11, "\"e\":\"stuck\"") == 0; long shown = 0;
  for (size_t vi = 0; vi < v.size(); ++vi) {
    if (endless && shown > 2500 && vi + 1 < v.size()) { vi = v.size() - 1; }
    auto& x = v[vi]; const Rec& r = x.r; bool m = r.k == 'r' || r.k == 'w';
    if (m) {
      if (mt != r.t) { flush(); rs.clear(); ws.clear(); mt = r.t; }
      for (size_t i = at(r.a); cuts[i] < r.a + r.n; ++i) { Seg& g = seg[i]; if (!g.multi || !g.wr) continue; if (!g.id) g.id = ++nl;
        if (r.k == 'w') { if (ws.insert(g.id).second) { wr.push_back(g.id); wp.push_back((long)r.pc); } } else if (rs.insert(g.id).second) { rd.push_back(g.id); rp.push_back((long)r.pc); } }
      continue;
    }
    bool drop = strchr("luLSM", r.k) && !named.count(r.a) && users[r.a].size() < 2;
    if (drop) continue;
    if (strchr("uSM", r.k)) ++ver[r.a];
    if (r.k == 'L') { int v = ver[r.a]; if (!v) continue; if (r.x != 0 && r.x != 3) { int& g = got[{r.a, r.t}]; if (g == v) continue; g = v; } else continue; }
    flush(); mt = -1; rs.clear(); ws.clear(); ++shown;
    string t = ",\"t\":" + to_string(r.t);
    switch (r.k) {
      case 'l': cout << "{\"e\":\"lock\"" << t << ",\"s\":" << sid(r.a) << "}\n"; break;
      case 'u': cout << "{\"e\":\"unlock\"" << t << ",\"s\":" << sid(r.a) << "}\n"; break;
      case 'b': cout << "{\"e\":\"badunlock\"" << t << ",\"s\":" << sid(r.a) << "}\n"; break;
      case 'n': cout << "{\"e\":\"mutex\"" << t << ",\"s\":" << sid(r.a) << ",\"q\":\"" << x.s << "\"}\n"; break;
      case 'f': cout << "{\"e\":\"fork\"" << t << ",\"u\":" << r.a << "}\n"; break;
      case 'j': cout << "{\"e\":\"join\"" << t << ",\"u\":" << r.a << "}\n"; break;
      case 'e': cout << "{\"e\":\"exit\"" << t << "}\n"; break;
      case 'L': case 'S': case 'M': cout << "{\"e\":\"atom\"" << t << ",\"s\":" << sid(r.a) << ",\"k\":\"" << (char)r.k << "\",\"acq\":" << (r.k != 'S' && r.x != 0 && r.x != 3 ? "true" : "false") << ",\"rel\":" << (r.k != 'L' && r.x >= 3 ? "true" : "false") << "}\n"; break;
      case 'x': cout << "{" << x.s << t << "}\n"; break;
    }
  }
  flush();
}
int main(int, char** a) {
  ios::sync_with_stdio(false); ifstream in(a[1], ios::binary); string d((istreambuf_iterator<char>(in)), {}); size_t p = 0; vector<R> v;
  while (p + sizeof(Rec) <= d.size()) {
    R x; memcpy(&x.r, &d[p], sizeof(Rec)); p += sizeof(Rec);
    if (x.r.k == 'x' || x.r.k == 'n') { x.s.assign(&d[p], x.r.n); p += (x.r.n + 7) / 8 * 8; }
    if (x.r.k == 'x' && x.s.compare(0, 11, "\"e\":\"begin\"") == 0 && !v.empty()) { trace(v); v.clear(); }
    v.push_back(x);
  }
  if (!v.empty()) trace(v);
}
