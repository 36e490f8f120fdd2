// Seeded generators: swarm configuration, operation sequences, faults.
#include "gen.h"
#include "xstore.h"
#include <array>

int max_key(int bsize) { return bsize - 59; }

struct Gen {
  Rng r;
  Plan p;
  int nid = 0;
  std::map<int, std::map<int, i64>> len;     // file -> kid -> stored length (what the generator expects)
  i64 nextvid = 1;
  int tid = 0;
  Gen(const std::string &prop, u64 seed) : r(mix64(seed, hash_bytes(prop.data(), prop.size()))) { p.prop = prop; p.seed = seed; }
  Op &op(int k, i64 a0 = 0, i64 a1 = 0, i64 a2 = 0, i64 a3 = 0, i64 a4 = 0, i64 a5 = 0) {
    Op o; o.id = nid++; o.k = k; o.t = tid; i64 a[6] = {a0, a1, a2, a3, a4, a5}; memcpy(o.a, a, sizeof a);
    p.ops.push_back(o); return p.ops.back();
  }
  template <class T> T w(std::initializer_list<std::pair<T, int>> l) {
    int t = 0; for (auto &e : l) t += e.second;
    int x = (int)r.below(t);
    for (auto &e : l) { if (x < e.second) return e.first; x -= e.second; }
    return l.begin()->first;
  }
  int bs(int f) { char b[20]; snprintf(b, sizeof b, "bsize%d", f); return (int)p.get(b, 512); }
  void file(int f, int maxbs = 1 << 16) {
    char b[20]; auto set = [&](const char *n, i64 v) { snprintf(b, sizeof b, "%s%d", n, f); p.set(b, v); };
    int s = w<int>({{512, 10}, {1024, 4}, {2048, 3}, {4096, 3}, {8192, 1}, {65536, 1}});
    if (s > maxbs) s = maxbs;
    set("bsize", s);
    set("nb", w<int>({{1, 8}, {2, 2}, {3, 1}, {4, 1}, {5, 1}, {8, 1}, {13, 1}, {32, 1}, {100, 1}}));
    set("hash", w<int>({{0, 6}, {1, 2}, {2, 2}, {3, 3}, {4, 1}, {5, 1}, {6, 3}, {7, 1}}));
    set("kstyle", w<int>({{0, 4}, {1, 3}, {2, 1}, {3, 2}, {4, 2}, {5, 2}, {6, 1}, {7, 1}}));
    set("cmp", r.chance(250));
    if (r.chance(500)) set("uilen", w<i64>({{1, 1}, {100, 2}, {s - 28 - 4, 2}, {s - 28, 2}, {2 * (s - 28) - 4, 1}, {3 * s, 1}, {r.range(1, 5 * s), 3}}));
    if (r.chance(500)) set("ncfg", w<i64>({{1, 1}, {2, 1}, {3, 2}, {4, 1}, {r.range(1, 60), 4}, {r.range(50, 300), 1}}));
  }
  i64 cache() { return w<i64>({{0, 2}, {1, 2}, {2, 2}, {4, 2}, {6, 2}, {8, 3}, {12, 3}, {20, 3}, {50, 2}, {400, 2}}); }
  i64 vlen(int f, i64 maxpages = 8) {
    i64 s = bs(f), d = s - 32 - 24;   // page minus data page and item overhead
    switch (r.below(10)) {
      case 0: return r.range(0, 3);
      case 1: case 2: case 3: return r.range(1, 60);
      case 4: return std::max<i64>(1, d + r.range(-10, 10));
      case 5: return std::max<i64>(1, d * r.range(1, std::min<i64>(3, maxpages)) + r.range(-30, 60));
      case 6: return r.range(1, s);
      case 7: return r.range(1, std::min<i64>(s * maxpages, 40000));
      case 8: return std::max<i64>(1, s / 2 + r.range(-20, 20));
      default: return r.range(1, 300);
    }
  }
  void open(int slot, int f, int mode, int rearr = -1) {
    i64 bits = 0; if (mode != 0 && r.chance(300)) bits = r.below(16);
    op(K_OPEN, slot, f, mode, cache(), rearr < 0 ? (i64)r.below(2) : rearr, bits);
  }
  int pick_kid(int f, int nk) { (void)f; return (int)r.below(nk); }
  int existing(int f, int nk) { auto &m = len[f]; if (m.empty()) return pick_kid(f, nk); auto i = m.begin(); std::advance(i, r.below(m.size())); return i->first; }
  void put(int slot, int f, int nk, int flavour = -1) {
    // flavour 0 any key, 1 new, 2 replace fitting, 3 replace too big, 4 nooverwrite, 5 over-long key
    if (flavour < 0) flavour = w<int>({{0, 4}, {1, 8}, {2, 5}, {3, 1}, {4, 2}, {5, 1}});
    int k = pick_kid(f, nk); i64 l = vlen(f); int flag = 0;
    auto &m = len[f];
    if (flavour == 1) { for (int t = 0; t < 8 && m.count(k); t++) k = pick_kid(f, nk); }
    if (flavour == 2) { k = existing(f, nk); if (m.count(k)) { i64 c = m[k]; l = r.chance(600) ? c : (r.chance(300) ? std::max<i64>(0, c - 1) : r.range(0, c)); } }
    if (flavour == 3) { k = existing(f, nk); if (m.count(k)) l = m[k] + 1 + (r.chance(500) ? 0 : r.range(0, 2000)); }
    if (flavour == 4) { k = r.chance(600) ? existing(f, nk) : k; flag = FFDB_NOOVERWRITE; if (m.count(k) && r.chance(500)) l = r.range(0, m[k]); }
    if (flavour == 5) { k = 100000000 + max_key(bs(f)) + (int)r.range(-1, 70); }
    op(K_PUT, slot, k, nextvid++, l, flag);
    if (k < 100000000) { if (!m.count(k)) m[k] = l; else if (!flag && l <= m[k]) m[k] = l; }
  }
  void get(int slot, int f, int nk) {
    int k = r.chance(750) ? existing(f, nk) : (r.chance(500) ? pick_kid(f, nk) : 80000000 + (int)r.below(50));
    op(K_GET, slot, k, w<int>({{0, 6}, {1, 3}, {2, 2}, {3, 1}}));
  }
  void scan(int slot, i64 stop = 0) { op(K_SCAN, slot, r.below(2), w<int>({{0, 6}, {1, 3}, {2, 2}}), stop, r.below(2)); }
  void cfg(int slot, int f, bool write) {
    char b[20]; snprintf(b, sizeof b, "ncfg%d", f); i64 n = p.get(b, 0); if (n <= 0) n = 1;
    snprintf(b, sizeof b, "uilen%d", f); i64 u = p.get(b, 0); if (u <= 0) u = 4000;
    auto idx = [&]() { return w<i64>({{0, 2}, {n - 1, 3}, {(i64)r.below(n), 8}, {n, 1}, {n + 5, 1}}); };
    int t = (int)r.below(write ? 6 : 3);
    switch (t) {
      case 0: op(K_GET_CFG, slot, idx(), r.below(2), r.chance(100) ? 1 + r.below(4) : 0); break;
      case 1: op(K_GET_ALL, slot); break;
      case 2: op(K_GET_UI, slot, r.below(3), r.below(1000)); break;
      case 3: op(K_SET_CFG, slot, r.chance(30) ? -1 : idx(), r.below(1000000), r.chance(100) ? 1 + r.below(4) : 0); break;
      case 4: op(K_SET_ALL, slot, r.below(1000000), w<i64>({{0, 10}, {1, 1}, {-1, 1}})); break;
      case 5: op(K_SET_UI, slot, nextvid++, w<i64>({{0, 1}, {1, 1}, {u, 4}, {u - 1, 2}, {u + 1, 1}, {(i64)r.below(u + 1), 8}})); break;
    }
  }
  // a stretch of work in an open session
  struct Mix { int put = 10, get = 6, scan = 1, sync = 1, cfg = 1, cur = 1, hostile = 1; };
  Mix mix() {
    Mix m; auto sw = [&](int v) { return r.chance(250) ? 0 : (int)r.range(1, v); };
    m.put = (int)r.range(4, 14); m.get = sw(10); m.scan = sw(1); m.sync = sw(1); m.cfg = sw(2); m.cur = sw(3); m.hostile = r.chance(300);
    return m;
  }
  std::map<int, int> cur_slot;     // open cursors
  void work(int slot, int f, int n, int nk, Mix m, bool write) {
    int flav = r.chance(300) ? (int)r.below(3) : -1;
    for (int i = 0; i < n; i++) {
      int t = (write ? m.put : 0) + m.get + m.scan + (write ? m.sync : 0) + m.cfg + m.cur + m.hostile;
      if (!t) { get(slot, f, nk); continue; }
      int x = (int)r.below(t);
      if (write && (x -= m.put) < 0) { put(slot, f, nk, r.chance(400) ? flav : -1); continue; }
      if (!write) {} 
      if ((x -= m.get) < 0) { get(slot, f, nk); continue; }
      if ((x -= m.scan) < 0) { scan(slot, r.chance(300) ? r.range(1, 6) : 0); continue; }
      if (write && (x -= m.sync) < 0) { op(K_SYNC, slot); continue; }
      if ((x -= m.cfg) < 0) { cfg(slot, f, write); continue; }
      if ((x -= m.cur) < 0) { cursor_step(slot, write); continue; }
      op(K_HOSTILE, slot, r.below(9), r.below(1000));
    }
    for (auto &c : cur_slot) if (c.second == slot) { op(K_CUR_CLOSE, c.first); c.second = -1; }
  }
  void cursor_step(int slot, bool write) {
    // cursors are not kept open across modifications: a burst of steps, with gets in between
    (void)write;
    int c = (int)r.below(3);
    op(K_CUR_OPEN, slot, c);
    int n = (int)r.range(1, 25); int d = r.chance(500) ? FFDB_NEXT : FFDB_PREV;
    if (r.chance(300)) op(K_CUR_GET, c, d == FFDB_NEXT ? FFDB_FIRST : FFDB_LAST, r.below(2));
    for (int i = 0; i < n; i++) {
      if (r.chance(30)) d = d == FFDB_NEXT ? FFDB_PREV : FFDB_NEXT;
      if (r.chance(20)) op(K_CUR_GET, c, r.chance(500) ? FFDB_FIRST : FFDB_LAST, r.below(2));
      op(K_CUR_GET, c, d, r.below(2));
      if (r.chance(100)) get(slot, 0, 50);
    }
    if (r.chance(200)) op(K_SCAN, slot, r.below(2), 0, 0, 0);
    op(K_CUR_CLOSE, c);
  }
  // now and then a table of many buckets: several levels, overflow pages freed by the hundred
  int big_keys(int f, int permille) {
    if (!r.chance(permille)) return 0;
    char b[20]; auto set = [&](const char *n, i64 v) { snprintf(b, sizeof b, "%s%d", n, f); p.set(b, v); };
    int n = (int)r.range(500, 1600), st = w<int>({{4, 3}, {5, 2}, {0, 1}});
    set("bsize", 512); set("kstyle", st); set("hash", w<int>({{0, 2}, {6, 2}})); if (r.chance(700)) set("nb", 1);
    return n;
  }
  void fill(int slot, int f, int nk, int n) { for (int i = 0; i < n; i++) { int k = i < nk ? i : pick_kid(f, nk); i64 l = r.chance(900) ? r.range(0, 40) : vlen(f, 3); op(K_PUT, slot, k, nextvid++, l, 0); auto &m = len[f]; if (!m.count(k)) m[k] = l; else if (l <= m[k]) m[k] = l; } }
  // colliding hash functions build one long chain, whose splitting costs keys x pages x page size
  int nkeys(int f = 0) {
    int n = w<int>({{3, 2}, {12, 4}, {40, 5}, {120, 3}, {400, 1}});
    char b[20]; snprintf(b, sizeof b, "hash%d", f); i64 h = p.get(b, 0); snprintf(b, sizeof b, "kstyle%d", f); i64 ks = p.get(b, 0);
    bool collide = h == 1 || h == 2 || h == 4 || h == 5 || h == 7, big = ks == 2 || ks == 4 || ks == 5;
    if (collide && big) while (n > 12 && (i64)n * n * bs(f) > 40000000) n = n * 2 / 3;
    return n;
  }
};

static void add_faults(Plan &p, Rng &r, int n, const std::vector<int> &calls, const std::vector<int> &acts, int repeat_pm, int from_op);

// ---------------------------------------------------------------- per property
// more pages than the cache has hash chains: pages share a chain
static Plan gen_wide(const char *prop, u64 seed) {
  Gen g(prop, seed);
  if (g.r.chance(250)) {      // the largest pages
    g.p.set("bsize0", 1 << g.r.range(17, 20)); g.p.set("nb0", 1); g.p.set("hash0", g.r.below(3)); g.p.set("kstyle0", g.r.below(6)); g.p.set("cmp0", 0);
    i64 bs = g.p.get("bsize0", 0); int nk = (int)g.r.range(2, 10), q, i;
    if (g.r.chance(500)) g.p.set("ncfg0", g.r.range(1, 300));
    auto len = [&]() { return g.w<i64>({{g.r.range(0, 300), 3}, {bs - 56 + g.r.range(-20, 20), 2}, {g.r.range(1, bs), 2}, {g.r.range(bs, 2 * bs), 1}}); };
    for (q = 0; q < 2; q++) {
      g.open(0, 0, q, g.r.chance(300)); g.p.ops.back().a[3] = g.w<i64>({{0, 3}, {12, 1}});
      if (q) g.op(K_VERIFY, 0);
      for (i = (int)g.r.range(1, 12); i > 0; i--) { g.op(K_PUT, 0, g.r.below(nk), g.nextvid++, len(), 0); if (g.r.chance(300)) g.cfg(0, 0, true); }
      g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
    }
    g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_SCAN, 0, 0, 0, 0, 0); g.op(K_GET_ALL, 0); g.op(K_CLOSE, 0);
    return g.p;
  }
  if (g.r.chance(650)) {      // tables of many buckets: page numbers beyond 16 bits, offsets beyond 32 bits
    bool far = g.r.chance(600);
    g.p.set("bsize0", far ? 65536 : g.w<int>({{512, 3}, {1024, 1}, {4096, 1}}));
    g.p.set("nb0", far ? g.w<int>({{g.r.range(30000, 40000), 1}, {g.r.range(65000, 140000), 3}, {g.r.range(140000, 1000000), 1}}) : g.r.range(30000, 70000));
    g.p.set("hash0", g.r.below(3)); g.p.set("kstyle0", g.r.below(4)); g.p.set("cmp0", 0);
    i64 bs = g.p.get("bsize0", 0); int nk = (int)g.r.range(3, 30), sess = (int)g.r.range(1, 3);
    auto len = [&]() { return g.w<i64>({{g.r.range(0, 300), 6}, {bs - 56 + g.r.range(-20, 20), 2}, {g.r.range(1, bs), 2}, {g.r.range(bs, 2 * bs), 1}}); };
    for (int q = 0; q < sess; q++) {
      g.open(0, 0, q ? 1 : 0, g.r.chance(300));
      if (q) g.op(K_VERIFY, 0);
      for (int i = (int)g.r.range(1, nk); i > 0; i--) { g.op(K_PUT, 0, g.r.below(nk), g.nextvid++, len(), 0); if (g.r.chance(100)) g.cfg(0, 0, true); }
      g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
    }
    g.open(0, 0, 2); g.op(K_VERIFY, 0); if (!far) g.op(K_SCAN, 0, g.r.below(2), 0, 0, 0); g.op(K_GET_ALL, 0); g.op(K_CLOSE, 0);
    return g.p;
  }
  g.p.set("bsize0", 512); g.p.set("nb0", g.w<int>({{1, 2}, {100, 1}})); g.p.set("hash0", g.r.below(3)); g.p.set("kstyle0", g.r.below(3));
  int nk = (int)g.r.range(150, 330), sess = (int)g.r.range(1, 2);
  i64 cache = g.w<i64>({{0, 2}, {30000, 2}, {17000, 1}, {2000, 1}, {50, 1}});
  for (int q = 0; q < sess; q++) {
    g.open(0, 0, q ? 1 : 0, g.r.chance(300)); g.p.ops.back().a[3] = cache;
    int n = q ? (int)g.r.range(1, 40) : nk;
    for (int i = 0; i < n; i++) {
      int k = q ? (int)g.r.below(nk + 20) : i;
      g.op(K_PUT, 0, k, g.nextvid++, g.r.range(30000, 65000), 0);
      if (g.r.chance(100)) g.op(K_GET, 0, g.r.below(i + 1), 0);
    }
    if (g.r.chance(300)) g.op(K_SYNC, 0);
    g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  }
  g.open(0, 0, 2); g.p.ops.back().a[3] = cache; g.op(K_VERIFY, 0); g.op(K_SCAN, 0, 0, 0, 0, 0); g.op(K_CLOSE, 0);
  return g.p;
}
static bool wide(u64 seed) { return Rng(mix64(seed, 4242)).below(150) == 0; }
// Buckets with long chains of overflow pages that are split when the table has grown to
// them: pages freed by the dozen, lists of free pages kept in the file and used up again
// by later sessions.
static Plan gen_lists(const char *prop, u64 seed, bool sessions) {
  Gen g(prop, seed);
  g.p.set("bsize0", g.w<int>({{512, 8}, {1024, 1}})); g.p.set("hash0", 3); g.p.set("kstyle0", 8); g.p.set("cmp0", 0);
  int k = g.w<int>({{2, 1}, {3, 2}, {4, 3}, {5, 3}, {6, 3}, {7, 1}, {8, 1}}), half = 1 << k;
  g.p.set("nb0", g.w<int>({{1, 4}, {half / 2, 1}, {half, 2}, {half + 1, 1}}));
  i64 nb = g.p.get("nb0", 1);
  int hot = g.r.chance(700) ? (int)g.r.range(half / 2, half - 1) : (int)g.r.below(half), hots = g.w<int>({{1, 3}, {2, 1}, {3, 1}});
  int ca = g.w<int>({{3, 4}, {2, 1}}), cb = g.w<int>({{1, 3}, {2, 3}, {0, 1}, {3, 1}}), id = 0;
  int mix = g.w<int>({{0, 3}, {200, 1}, {1000, 1}});
  i64 bs = g.p.get("bsize0", 512);
  std::vector<int> kids;
  auto put = [&](int slot, int h, int c, i64 l) { int kid = (id++ & 2047) | (h & 2047) << 11 | c << 22; kids.push_back(kid); g.op(K_PUT, slot, kid, g.nextvid++, l, 0); };
  // one key of each kind in turn: two share no page, but after the split several of the smaller kind do
  auto chain = [&](int slot, int n) {
    for (int i = 0; i < n && id < 2040; i++) {
      bool a = g.r.chance(mix) ? g.r.chance(500) : (i & 1);
      int h = (hot - (int)g.r.below(hots) + half) % half;
      put(slot, a ? h : h + half, a ? ca : cb, g.r.chance(970) ? g.r.range(0, 30) : g.r.range(1, 3 * bs));
    }
  };
  int rearr = g.w<int>({{0, 3}, {1, 1}, {-1, 2}});
  int need = half + hot - (int)std::max<i64>(0, nb - 1) + (int)g.r.range(-2, 12);
  if (need < 4) need = 4;
  if (g.r.chance(200)) need = need * 2;
  g.open(0, 0, 0, rearr);
  chain(0, need);
  int sess = sessions ? (int)g.r.range(1, 4) : 1;
  for (int q = 0; q < sess; q++) {
    if (sessions) {
      if (g.r.chance(200)) g.op(K_VERIFY, 0);
      g.op(K_CLOSE, 0);
      if (g.r.chance(200)) { g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0); }
      g.open(0, 0, 1, rearr);
      if (g.r.chance(300)) g.op(K_VERIFY, 0);
    }
    for (int i = (int)g.r.range(1, 12); i > 0; i--) switch (g.r.below(6)) {
      case 0: case 1: put(0, (int)g.r.below(2048), 0, g.r.range(1, 12 * bs)); break;                      // data pages
      case 2: if (!kids.empty()) g.op(K_GET, 0, kids[g.r.below(kids.size())], 0); break;
      case 3: chain(0, (int)g.r.range(1, 12)); break;
      case 4: { int h = (int)g.r.below(2 * half); for (int c = (int)g.r.range(1, 5); c > 0; c--) put(0, h, 3, g.r.range(0, 60)); break; }   // overflow pages elsewhere
      default: if (g.r.chance(300)) g.op(K_SYNC, 0); else g.scan(0, g.r.range(0, 20));
    }
  }
  g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  if (sessions) { g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_SCAN, 0, g.r.below(2), 0, 0, 0); g.op(K_CLOSE, 0); }
  return g.p;
}
static bool lists(u64 seed) { return Rng(mix64(seed, 777)).below(40) == 0; }
static Plan gen_p01(u64 seed) {
  if (lists(seed)) return gen_lists("P01", seed, false);
  if (wide(seed)) return gen_wide("P01", seed);
  Gen g("P01", seed);
  g.file(0);
  int nk = g.nkeys(), big = g.big_keys(0, 20);
  if (big) nk = big;
  g.open(0, 0, 0);
  int n = (int)g.r.range(5, 40) + (int)g.r.below(3 * (big ? 20 : nk) + 1);
  if (big) g.fill(0, 0, nk, big);
  Gen::Mix m = g.mix(); m.cur = 0; m.cfg = 0;
  if (!big && g.r.chance(250)) for (int i = 0; i < nk && i < 250; i++) g.put(0, 0, nk, 1);
  g.work(0, 0, n, nk, m, true);
  g.op(K_VERIFY, 0);
  if (g.r.chance(500)) g.scan(0);
  g.op(K_CLOSE, 0);
  return g.p;
}
static Plan gen_p02(u64 seed) {
  if (lists(seed)) return gen_lists("P02", seed, true);
  if (wide(seed)) return gen_wide("P02", seed);
  Gen g("P02", seed);
  g.file(0);
  int nk = g.nkeys(), big = g.big_keys(0, 15);
  if (big) nk = big;
  int sessions = (int)g.r.range(2, big ? 3 : 6);
  int per = (int)g.r.range(3, 30) + (int)g.r.below((big ? 20 : nk) + 1);
  int rearr = g.w<int>({{0, 2}, {1, 3}, {-1, 3}});
  for (int s = 0; s < sessions; s++) {
    bool ro = s > 0 && g.r.chance(250);
    g.open(0, 0, s == 0 ? (g.r.chance(800) ? 0 : 3) : ro ? 2 : (g.r.chance(800) ? 1 : 3), rearr);
    if (s > 0 && g.r.chance(700)) g.op(K_VERIFY, 0);
    Gen::Mix m = g.mix(); m.cur = 0;
    if (big && s < 2 && !ro) g.fill(0, 0, nk, s ? big / 2 : big);
    if (g.r.chance(850)) g.work(0, 0, g.r.chance(150) ? 0 : (int)g.r.range(1, per), nk, m, !ro);
    g.op(K_CLOSE, 0);
  }
  g.open(0, 0, 2);
  g.op(K_VERIFY, 0);
  g.op(K_SCAN, 0, 0, 0, 0, 0);
  g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0);
  g.op(K_CLOSE, 0);
  return g.p;
}

// a database prepared in one clean session
static int populate(Gen &g, int f, int nk, int rearr) {
  g.open(0, f, 0, rearr);
  int n = (int)g.r.range(1, std::max(2, nk * 5 / 4));
  for (int i = 0; i < n; i++) g.put(0, f, nk, g.r.chance(850) ? 1 : 2);
  if (g.r.chance(400)) g.op(K_SET_ALL, 0, g.r.below(1000000), 0);
  if (g.r.chance(400)) g.cfg(0, f, true);
  g.op(K_CLOSE, 0);
  return n;
}
// P03: cursors
static Plan gen_p03(u64 seed) {
  Gen g("P03", seed);
  g.file(0);
  int nk = g.nkeys();
  bool many = wide(seed);                     // a large table, almost all of it empty
  if (many) { g.p.set("bsize0", 512); g.p.set("nb0", g.r.range(20000, 80000)); nk = std::min(nk, 25); }
  g.open(0, 0, 0);
  int n = (int)g.r.range(0, nk + nk / 2);
  for (int i = 0; i < n; i++) g.put(0, 0, nk, g.r.chance(850) ? 1 : 2);
  bool reopen = g.r.chance(500), ro = false;
  if (reopen) { g.op(K_CLOSE, 0); ro = g.r.chance(500); g.open(0, 0, ro ? 2 : 1); }
  int rounds = many ? 1 : (int)g.r.range(1, 5);
  for (int q = 0; q < rounds; q++) {
    int style = many ? (int)g.r.below(2) : (int)g.r.below(4);
    if (style == 0) { g.scan(0); if (g.r.chance(500)) g.scan(0); }
    else if (style == 1) {                  // several cursors advance in turn, with reads in between
      int nc = (int)g.r.range(1, 4); int dir[4]; i64 left = std::min<i64>(nk + nk / 2 + 3, 150) * nc;
      for (int c = 0; c < nc; c++) { g.op(K_CUR_OPEN, 0, c); dir[c] = g.r.chance(600) ? FFDB_NEXT : FFDB_PREV; if (g.r.chance(300)) g.op(K_CUR_GET, c, dir[c] == FFDB_NEXT ? FFDB_FIRST : FFDB_LAST, g.r.below(2)); }
      int getpm = (int)g.r.below(400);
      for (i64 i = 0; i < left; i++) { int c = (int)g.r.below(nc); g.op(K_CUR_GET, c, dir[c], g.r.below(2)); if (g.r.chance(getpm)) g.get(0, 0, nk); if (g.r.chance(5)) g.scan(0); }
      for (int c = 0; c < nc; c++) g.op(K_CUR_CLOSE, c);
    } else if (style == 2) g.cursor_step(0, false);
    else { int c = 0; g.op(K_CUR_OPEN, 0, c); int t = (int)g.r.range(1, 60); for (int i = 0; i < t; i++) g.op(K_CUR_GET, c, g.w<int>({{FFDB_NEXT, 10}, {FFDB_PREV, 6}, {FFDB_FIRST, 1}, {FFDB_LAST, 1}}), g.r.below(2)); g.op(K_CUR_CLOSE, c); }
    if (!ro && g.r.chance(500)) { int k = (int)g.r.range(1, 20); for (int i = 0; i < k; i++) g.put(0, 0, nk); }
  }
  g.scan(0);
  g.op(K_CLOSE, 0);
  return g.p;
}
// P04: what a successful sync promised survives a crash at any later point before the next modification
// such a history cut at some point: after a sync, by a crash, or with a failing disk
static Plan cut_lists(const char *prop, u64 seed, int what) {
  Plan p = gen_lists(prop, seed, true);
  Rng r(mix64(seed, 778)), fr(mix64(seed, 779));
  size_t last = p.ops.size(); while (last > 1 && p.ops[last - 1].k != K_OPEN) last--;       // the final session only reads
  last--;
  std::vector<Op> ops(p.ops.begin(), p.ops.begin() + (long)(r.chance(400) ? last : r.range((i64)last / 3, (i64)last)));
  int id = 0; for (auto &o : ops) id = std::max(id, o.id + 1);
  if (what == 4) for (auto &o : ops) if (o.k == K_OPEN) o.a[4] = 0;
  auto op = [&](int k, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0, i64 e = 0) { Op o; o.id = id++; o.k = k; o.a[0] = a; o.a[1] = b; o.a[2] = c; o.a[3] = d; o.a[4] = e; ops.push_back(o); };
  int open = 0; for (auto &o : ops) { if (o.k == K_OPEN) open = o.a[2] == 2 ? 2 : 1; if (o.k == K_CLOSE) open = 0; }
  bool power = r.chance(500);
  if (what == 4) {
    p.set("rearr", 0);
    if (!open || open == 2) { if (open == 2) op(K_CLOSE, 0); op(K_OPEN, 0, 0, 1, r.range(0, 60), 0); }
    op(K_SYNC, 0);
    int from = id;
    if (r.chance(500)) op(K_VERIFY, 0);
    if (r.chance(300)) { op(K_SCAN, 0, 0, 0, 0, 0); op(K_SYNC, 0); }
    p.ops = ops;
    if (r.chance(700)) add_faults(p, fr, 1, {C_ANYIO}, power ? std::vector<int>{A_POWER_BEFORE, A_POWER_AFTER} : std::vector<int>{A_KILL_BEFORE, A_KILL_AFTER}, 0, from);
    op(K_CRASH, power, (i64)(r.next() >> 2));
  } else if (what == 5) {
    int from = (int)ops[(size_t)r.range((i64)ops.size() / 2, (i64)ops.size() - 1)].id;
    p.ops = ops;
    if (r.chance(800)) add_faults(p, fr, 1, {C_ANYIO}, power ? std::vector<int>{A_POWER_BEFORE, A_POWER_AFTER} : std::vector<int>{A_KILL_BEFORE, A_KILL_TORN, A_KILL_AFTER}, 0, from);
    op(K_CRASH, power, (i64)(r.next() >> 2));
  } else {
    if (open) { op(K_VERIFY, 0); if (r.chance(500)) { op(K_SYNC, 0); op(K_SYNC, 0); } op(K_CLOSE, 0); }
    int from = (int)ops[(size_t)r.range((i64)ops.size() / 3, (i64)ops.size() - 1)].id;
    p.ops = ops;
    add_faults(p, fr, (int)r.range(1, 4), r.chance(700) ? std::vector<int>{C_WRITE} : std::vector<int>{C_WRITE, C_FSYNC, C_TRUNC, C_CLOSE, C_SEEK}, r.chance(500) ? std::vector<int>{A_ERR_EIO} : std::vector<int>{A_ERR_EIO, A_ERR_ENOSPC, A_SHORT}, 300, from);
  }
  op(K_OPEN, 0, 0, 2, r.range(0, 60), 0); op(K_VERIFY, 0); op(K_SCAN, 0, r.below(2), 0, 0, 0); op(K_CLOSE, 0);
  p.ops = ops;
  return p;
}
static Plan gen_p04(u64 seed) {
  if (lists(seed)) return cut_lists("P04", seed, 4);
  Gen g("P04", seed);
  g.file(0, 4096);
  int nk = g.nkeys();
  int rearr = g.r.chance(700) ? 0 : 1;
  bool power = g.r.chance(500);
  g.p.set("rearr", rearr);
  if (g.r.chance(500)) populate(g, 0, nk, rearr);
  else { g.open(0, 0, 0, rearr); goto opened; }
  g.open(0, 0, 1, rearr);
opened:
  {
    int rounds = (int)g.r.range(1, 4);
    for (int q = 0; q < rounds; q++) {
      Gen::Mix m = g.mix(); m.cur = 0; m.hostile = 0;
      g.work(0, 0, (int)g.r.range(1, 10 + nk), nk, m, true);
      int nc = g.r.chance(300) ? (int)g.r.range(1, 3) : 0;            // cursors are open
      for (int c = 0; c < nc; c++) {
        g.op(K_CUR_OPEN, 0, c);
        int n = (int)g.r.range(0, 12), d = g.r.chance(500) ? FFDB_NEXT : FFDB_PREV;
        for (int i = 0; i < n; i++) g.op(K_CUR_GET, c, d, g.r.below(2));
      }
      g.op(K_SYNC, 0);
      for (int c = 0; c < nc; c++) {
        if (q + 1 == rounds && g.r.chance(600)) continue;           // until the crash
        if (g.r.chance(500)) for (int i = 0; i < 5; i++) g.op(K_CUR_GET, c, FFDB_NEXT, g.r.below(2));
        g.op(K_CUR_CLOSE, c);
      }
    }
  }
  int from = g.nid;
  // reads only, until the crash
  bool closes = rearr == 0 && g.r.chance(400);
  Gen::Mix m = g.mix(); m.cur = g.r.chance(300); m.hostile = 0; m.get = 6; m.scan = 1; m.cfg = 1; m.sync = 0;
  g.work(0, 0, (int)g.r.range(0, 20), nk, m, false);
  if (g.r.chance(500)) g.op(K_SYNC, 0);
  if (closes) { g.op(K_CLOSE, 0); if (g.r.chance(600)) { g.open(0, 0, 1, 0); g.work(0, 0, (int)g.r.range(0, 8), nk, m, false); } }
  if (g.r.chance(300)) for (int i = 0; i < 3; i++) { Op &o = g.op(K_PUT, 0, 100000000 + max_key(g.bs(0)) + 1 + (int)g.r.below(50), g.nextvid++, 5, 0); (void)o; }
  Rng fr(mix64(seed, 404));
  if (g.r.chance(700)) add_faults(g.p, fr, 1, {C_ANYIO}, power ? std::vector<int>{A_POWER_BEFORE, A_POWER_AFTER} : std::vector<int>{A_KILL_BEFORE, A_KILL_TORN, A_KILL_AFTER}, 0, from);
  g.op(K_CRASH, power, (i64)(g.r.next() >> 2));
  g.open(0, 0, g.r.chance(500) ? 2 : 1, 0);
  g.op(K_VERIFY, 0); g.scan(0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0);
  g.op(K_CLOSE, 0);
  if (g.r.chance(500)) {          // and the database goes on working
    g.open(0, 0, 1, rearr); m = g.mix(); m.cur = 0; m.hostile = 0; g.work(0, 0, (int)g.r.range(1, 30), nk, m, true); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
    g.open(0, 0, 2, rearr); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  }
  return g.p;
}
// P05: crash anywhere, any number of times; reads never return what was never stored
static Plan gen_p05(u64 seed) {
  if (lists(seed)) return cut_lists("P05", seed, 5);
  Gen g("P05", seed);
  g.file(0, 4096);
  int nk = g.nkeys();
  int rounds = (int)g.r.range(1, 3);
  bool power = g.r.chance(500);
  Rng fr(mix64(seed, 505));
  for (int q = 0; q < rounds; q++) {
    int from = g.nid;
    g.open(0, 0, q == 0 ? 0 : 1);
    Gen::Mix m = g.mix(); m.cur = 0; m.hostile = 0;
    g.work(0, 0, (int)g.r.range(1, 20 + nk), nk, m, true);
    if (g.r.chance(500)) g.op(K_CLOSE, 0);
    if (g.r.chance(700)) add_faults(g.p, fr, 1, {C_ANYIO}, power ? std::vector<int>{A_POWER_BEFORE, A_POWER_AFTER} : std::vector<int>{A_KILL_BEFORE, A_KILL_TORN, A_KILL_AFTER}, 0, from);
    g.op(K_CRASH, power, (i64)(g.r.next() >> 2));
    g.open(0, 0, 2);
    g.op(K_VERIFY, 0); g.scan(0);
    if (g.r.chance(300)) { g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); }
    g.op(K_CLOSE, 0);
  }
  return g.p;
}
// P06: corruption of stored bytes is noticed
static Plan gen_p06(u64 seed) {
  Gen g("P06", seed);
  g.file(0, 8192);
  int nk = g.nkeys();
  populate(g, 0, nk, -1);
  if (g.r.chance(300)) { g.open(0, 0, 1); Gen::Mix m = g.mix(); m.cur = 0; g.work(0, 0, (int)g.r.range(1, 30), nk, m, true); g.op(K_CLOSE, 0); }
  bool early = g.r.chance(800);
  if (!early) g.open(0, 0, 2);
  int nc = g.r.chance(800) ? 1 : (int)g.r.range(2, 4);
  for (int i = 0; i < nc; i++) g.op(K_CORRUPT, 0, (i64)(g.r.next() >> 2), g.r.below(2), g.r.chance(150));
  if (early) g.open(0, 0, 2);
  for (int i = 0; i < 10; i++) g.get(0, 0, nk);
  g.op(K_VERIFY, 0); g.scan(0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0);
  g.op(K_CLOSE, 0);
  // the library may have stopped the process: look again from a fresh one, key by key
  for (int i = 0; i < 6; i++) { g.open(0, 0, 2); int c = (int)g.r.range(1, 12); for (int j = 0; j < c; j++) g.get(0, 0, nk); if (g.r.chance(300)) g.scan(0); if (g.r.chance(200)) { g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); } g.op(K_CLOSE, 0); }
  return g.p;
}
// P07: failing writes
static Plan gen_p07(u64 seed) {
  if (lists(seed)) return cut_lists("P07", seed, 7);
  Gen g("P07", seed);
  g.file(0, 4096);
  int nk = g.nkeys();
  Rng fr(mix64(seed, 707));
  int sessions = (int)g.r.range(1, 3);
  int rearr = g.w<int>({{0, 5}, {1, 2}, {-1, 2}});
  for (int q = 0; q < sessions; q++) {
    g.open(0, 0, q == 0 ? 0 : 1, rearr);
    int from = g.nid;
    bool full = g.r.chance(200);              // the disk is (nearly) full for a while
    if (full) g.op(K_QUOTA, g.r.range(0, 30));
    Gen::Mix m = g.mix(); m.cur = 0; m.hostile = 0;
    g.work(0, 0, (int)g.r.range(1, 15 + nk), nk, m, true);
    if (g.r.chance(500)) g.op(K_VERIFY, 0);
    if (full && g.r.chance(400)) { g.op(K_SYNC, 0); g.op(K_QUOTA, 0, 1); if (g.r.chance(500)) g.work(0, 0, (int)g.r.range(1, 15), nk, m, true); }
    if (g.r.chance(500)) { g.op(K_SYNC, 0); g.op(K_SYNC, 0); if (g.r.chance(400)) g.op(K_CRASH, 0, 0); }
    g.op(K_CLOSE, 0);
    int style = (int)g.r.below(4);
    std::vector<int> acts = style == 0 ? std::vector<int>{A_ERR_EIO} : style == 1 ? std::vector<int>{A_ERR_ENOSPC} : style == 2 ? std::vector<int>{A_SHORT} : std::vector<int>{A_ERR_EIO, A_ERR_ENOSPC, A_SHORT};
    add_faults(g.p, fr, (int)g.r.range(1, 4), g.r.chance(700) ? std::vector<int>{C_WRITE} : std::vector<int>{C_WRITE, C_FSYNC, C_TRUNC, C_CLOSE, C_SEEK}, acts, 300, from);
    if (full) g.op(K_QUOTA, 0, 1);
    g.open(0, 0, 2); g.op(K_VERIFY, 0); if (g.r.chance(500)) g.scan(0); g.op(K_CLOSE, 0);
  }
  return g.p;
}
// P08: failing reads
static Plan gen_p08(u64 seed) {
  Gen g("P08", seed);
  g.file(0, 8192);
  int nk = g.nkeys();
  Rng fr(mix64(seed, 808));
  populate(g, 0, nk, -1);
  bool ro = g.r.chance(600);
  int sessions = (int)g.r.range(1, 3);
  for (int q = 0; q < sessions; q++) {
    int from = g.nid;
    g.open(0, 0, ro ? 2 : 1, 0);
    Gen::Mix m = g.mix(); m.cur = g.r.below(2); m.hostile = 0; m.get = 6; m.scan = 1; m.put = 0; m.sync = 0;
    g.work(0, 0, (int)g.r.range(1, 40), nk, m, false);
    add_faults(g.p, fr, (int)g.r.range(1, 4), g.r.chance(800) ? std::vector<int>{C_READ} : std::vector<int>{C_READ, C_SEEK, C_OPEN, C_STAT}, g.r.chance(500) ? std::vector<int>{A_ERR_EIO} : std::vector<int>{A_ERR_EIO, A_SHORT}, 200, from);
    g.op(K_VERIFY, 0);           // faults are over: everything is there again
    g.op(K_SCAN, 0, g.r.below(2), 0, 0, 0);
    g.op(K_CLOSE, 0);
    g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  }
  return g.p;
}
static void sched_params(Gen &g) {
  g.p.set("sched_mode", g.r.chance(450));
  g.p.set("p_sync", g.w<int>({{50, 1}, {250, 2}, {600, 1}}));
  g.p.set("p_mem", g.w<int>({{0, 3}, {100, 1}, {1000, 2}, {5000, 1}}));
  g.p.set("p_spur", g.w<int>({{0, 2}, {20, 1}, {100, 1}}));
  g.p.set("pct_depth", g.r.range(1, 6));
  g.p.set("pct_span", g.w<int>({{500, 1}, {5000, 2}, {50000, 2}}));
}
// P09: concurrent readers of one handle
static Plan gen_p09(u64 seed) {
  Gen g("P09", seed);
  g.file(0, 4096);
  int nk = g.w<int>({{3, 3}, {12, 4}, {40, 3}});
  g.open(0, 0, 0);
  int n = (int)g.r.range(1, nk + 5);
  for (int i = 0; i < n; i++) g.put(0, 0, nk, 1);
  bool writer = g.r.chance(300);
  if (!writer) { g.op(K_CLOSE, 0); g.open(0, 0, g.r.chance(700) ? 2 : 1); }
  int rounds = g.r.chance(800) ? 1 : 2;
  for (int q = 0; q < rounds; q++) {
    g.op(K_MTREAD);
    int nt = (int)g.r.range(2, 5), per = (int)g.r.range(1, 12), scanpm = (int)g.w<int>({{0, 3}, {200, 1}, {1000, 1}});
    bool hot = g.r.chance(400); int hk = g.existing(0, nk);
    for (int t = 1; t <= nt; t++) {
      g.tid = t;
      for (int i = 0; i < per; i++) {
        if (g.r.chance(scanpm)) { g.scan(0, g.r.chance(300) ? g.r.range(1, 5) : 0); continue; }
        if (hot && g.r.chance(700)) { g.op(K_GET, 0, hk, g.r.below(3)); continue; }
        g.get(0, 0, nk);
      }
    }
    g.tid = 0;
  }
  g.op(K_VERIFY, 0);
  g.op(K_CLOSE, 0);
  sched_params(g);
  if (g.r.chance(250)) {                      // reads fail while the threads run
    std::set<int> mt; for (auto &o : g.p.ops) if (o.k == K_MTREAD) mt.insert(o.id);
    Rng fr(mix64(seed, 909)); add_faults(g.p, fr, (int)g.r.range(1, 5), {C_READ, C_READ, C_SEEK}, g.r.chance(500) ? std::vector<int>{A_ERR_EIO} : std::vector<int>{A_ERR_EIO, A_SHORT}, 200, *mt.begin());
    std::vector<Fault> in; for (auto &x : g.p.faults) if (mt.count(x.op)) in.push_back(x);
    g.p.faults.swap(in);
  }
  return g.p;
}
// P10: read-only handles
static Plan gen_p10(u64 seed) {
  Gen g("P10", seed);
  g.file(0, 8192);
  int nk = g.nkeys();
  populate(g, 0, nk, -1);
  int nh = (int)g.r.range(1, 4);
  for (int h = 0; h < nh; h++) g.open(h, 0, 2);
  int n = (int)g.r.range(5, 60);
  for (int i = 0; i < n; i++) {
    int h = (int)g.r.below(nh);
    switch (g.r.below(8)) {
      case 0: { Op &o = g.op(K_PUT, h, g.r.chance(500) ? g.existing(0, nk) : g.pick_kid(0, nk), g.nextvid++, g.r.below(300), g.r.chance(200) ? FFDB_NOOVERWRITE : 0); (void)o; break; }
      case 1: g.op(K_SYNC, h); break;
      case 2: g.scan(h, g.r.chance(400) ? g.r.range(1, 9) : 0); break;
      case 3: g.cfg(h, 0, true); break;
      case 4: if (g.r.chance(200)) { g.op(K_CLOSE, h); g.open(h, 0, 2); } else if (g.r.chance(500)) g.op(K_HOSTILE, h, g.r.chance(600) ? 6 : g.r.below(9), g.r.below(1000)); break;
      default: g.get(h, 0, nk);
    }
  }
  for (int h = 0; h < nh; h++) { if (g.r.chance(500)) g.op(K_VERIFY, h); g.op(K_CLOSE, h); }
  g.open(0, 0, 2); g.op(K_VERIFY, 0); g.scan(0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); g.op(K_CLOSE, 0);
  return g.p;
}
// P11: user information and configuration table
static Plan gen_p11(u64 seed) {
  if (Rng(mix64(seed, 1111)).below(2000) == 0) {     // information on as many pages as a file can have, and on more
    Gen g("P11", seed);
    g.p.set("bsize0", 512); g.p.set("nb0", 1); g.p.set("hash0", 0); g.p.set("kstyle0", g.r.below(2)); g.p.set("cmp0", 0);
    i64 full = 65536 * 484, u = g.w<i64>({{full - g.r.range(0, 3000), 2}, {g.r.range(full - 5000000, full - 2000000), 2}, {full + g.r.range(0, 20000000), 3}, {2 * full + g.r.range(0, 100000), 1}});
    g.p.set("uilen0", u); g.p.set("ncfg0", g.r.range(1, 20));
    i64 cache = g.w<i64>({{0, 1}, {50, 1}, {400, 1}});
    g.open(0, 0, 0, 0); g.p.ops.back().a[3] = cache;
    g.op(K_SET_ALL, 0, g.r.below(1000000), 0);
    for (int i = (int)g.r.range(1, 3); i > 0; i--) { g.op(K_SET_UI, 0, g.nextvid++, g.w<i64>({{u, 2}, {u - g.r.range(0, 600), 1}, {g.r.range(1, u), 1}})); for (int j = 0; j < 20; j++) g.put(0, 0, 60); }
    if (g.r.chance(500)) g.op(K_GET_UI, 0, 0, 0);
    g.op(K_CLOSE, 0);
    g.open(0, 0, 2); g.p.ops.back().a[3] = cache; g.op(K_GET_UI, 0, 0, 0); g.op(K_GET_ALL, 0); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
    return g.p;
  }
  Gen g("P11", seed);
  g.file(0, 4096);
  int nk = g.nkeys();
  int sessions = (int)g.r.range(1, 4);
  for (int q = 0; q < sessions; q++) {
    bool ro = q > 0 && g.r.chance(200);
    g.open(0, 0, q == 0 ? 0 : ro ? 2 : 1);
    if (q == 0 && g.r.chance(800)) g.op(K_SET_ALL, 0, g.r.below(1000000), 0);
    int n = (int)g.r.range(1, 30);
    for (int i = 0; i < n; i++) { if (!ro && g.r.chance(250)) g.put(0, 0, nk); else g.cfg(0, 0, !ro); if (!ro && g.r.chance(40)) g.op(K_SYNC, 0); }
    g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0);
    g.op(K_CLOSE, 0);
  }
  g.open(0, 0, 2); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); for (int i = 0; i < 8; i++) g.cfg(0, 0, false); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  return g.p;
}

// ---------------------------------------------------------------- the C++ classes
struct XGen : Gen {
  XGen(const std::string &prop, u64 seed) : Gen(prop, seed) {}
  bool ens = false, bin = false, flt = false;
  void par(int f, const char *n, i64 v) { char b[24]; snprintf(b, sizeof b, "%s%d", n, f); p.set(b, v); }
  i64 par(int f, const char *n) { char b[24]; snprintf(b, sizeof b, "%s%d", n, f); return p.get(b, 0); }
  void xfile(int f, int maxbs = 8192) {
    file(f, maxbs);
    if (!r.chance(300)) par(f, "hash", 0);
    if (ens) {
      i64 n = w<i64>({{1, 2}, {2, 3}, {3, 3}, {5, 3}, {12, 2}, {40, 1}}); par(f, "ncfg", n);
      par(f, "elen", w<i64>({{1, 1}, {0, 1}, {r.range(1, 40), 6}, {r.range(1, std::max<i64>(2, 2 * bs(f) / n)), 3}, {std::max<i64>(1, bs(f) / n + r.range(-8, 8)), 2}}));
      par(f, "names", r.below(2));
    }
  }
  int kind() { return ens ? (bin ? X_ENS_B : X_ENS_S) : bin ? X_SINGLE_B : flt ? X_SINGLE_F : r.chance(250) ? X_SIMPLE : X_SINGLE_S; }
  void xopen(int slot, int f, int mode, int rearr = -1, int k = 0) { op(K_XOPEN, slot, f, mode, cache(), (rearr < 0 ? (i64)r.below(2) : rearr) | (r.chance(250) ? 4 : 0) | (r.chance(500) ? 8 : 0), k ? k : kind()); }
  void xput(int slot, int f, int nk, int flavour = -1) {
    if (flavour < 0) flavour = w<int>({{0, 4}, {1, 8}, {2, 5}, {3, ens ? 0 : 1}, {5, 1}, {6, ens ? 1 : 0}});
    int k = pick_kid(f, nk); i64 l = vlen(f); auto &m = len[f];
    if (flavour == 1) for (int t = 0; t < 8 && m.count(k); t++) k = pick_kid(f, nk);
    if (flavour == 2) { k = existing(f, nk); if (m.count(k)) { i64 c = m[k]; l = r.chance(600) ? c : r.range(0, c); } }
    if (flavour == 3) { k = existing(f, nk); if (m.count(k)) l = m[k] + 1 + (r.chance(500) ? 0 : r.range(0, 500)); }
    if (flavour == 5) k = 100000000 + max_key(bs(f)) + (int)r.range(-6, 40);
    op(K_PUT, slot, k, nextvid++, l, r.below(6), flavour == 6 ? (r.chance(120) ? 8 + r.below(2) : 1 + r.below(7)) : 0);
    if (k < 100000000 && flavour != 6) { if (!m.count(k)) m[k] = l; else if (l <= m[k]) m[k] = l; }
  }
  void xget(int slot, int f, int nk) { int k = r.chance(750) ? existing(f, nk) : r.chance(500) ? pick_kid(f, nk) : 80000000 + (int)r.below(50); if (r.chance(150)) op(K_XEXIST, slot, k); else op(K_GET, slot, k, r.below(6)); }
  void xscan(int slot, bool iter = true) { int v = (int)r.below(30); if (!iter && v % 5 == 4) v--; op(K_SCAN, slot, v); }
  void xinfo(int slot, int f, bool write) { cfg(slot, f, write); if (p.ops.back().k == K_SET_ALL) p.ops.back().k = K_GET_ALL; }
  void xupd(int slot, int f, int nk) {
    i64 n = std::max<i64>(1, par(f, "ncfg"));
    op(K_XUPD, slot, r.chance(850) ? existing(f, nk) : pick_kid(f, nk), nextvid++, w<i64>({{(i64)r.below(n), 20}, {n - 1, 4}, {n, 1}, {-1, 1}}), r.chance(60) ? (r.chance(500) ? 1 : -1) : 0);
  }
  void xwork(int slot, int f, int n, int nk, bool write, bool iter = true) {
    int pput = write ? (int)r.range(3, 12) : 0, pget = (int)r.range(1, 8), pscan = r.chance(600), psync = write ? r.chance(500) : 0, pinfo = (int)r.below(3), pupd = write && ens ? (int)r.range(0, 8) : 0;
    if (pupd && r.chance(500)) op(K_XDONE, slot);
    for (int i = 0; i < n; i++) {
      int x = (int)r.below(pput + pget + pscan + psync + pinfo + pupd);
      if ((x -= pput) < 0) xput(slot, f, nk);
      else if ((x -= pget) < 0) xget(slot, f, nk);
      else if ((x -= pscan) < 0) xscan(slot, iter);
      else if ((x -= psync) < 0) op(K_SYNC, slot);
      else if ((x -= pinfo) < 0) xinfo(slot, f, write);
      else { if (r.chance(100)) op(K_XDONE, slot); xupd(slot, f, nk); }
    }
  }
  void look(int slot, bool iter = true) { op(K_VERIFY, slot); xscan(slot, iter); if (r.chance(500)) xscan(slot, iter); op(K_GET_UI, slot); if (ens) op(K_GET_ALL, slot); }
  int xnk() { return ens ? w<int>({{3, 2}, {12, 4}, {30, 3}}) : std::min(nkeys(), 120); }
};
// typed stores and ensembles share their histories: plain sessions, failing reads, failing writes, flush and crash
static Plan gen_xstore(const char *prop, u64 seed, bool ens) {
  XGen g(prop, seed);
  g.ens = ens; g.bin = g.r.chance(ens ? 650 : 400); g.flt = !ens && !g.bin && g.r.chance(330);
  g.xfile(0);
  int nk = g.xnk(), style = g.w<int>({{0, 9}, {1, 4}, {2, 3}, {3, 4}});
  Rng fr(mix64(seed, 1212));
  int rearr = style == 3 ? 0 : g.w<int>({{0, 2}, {1, 2}, {-1, 2}});
  int sessions = (int)g.r.range(1, style ? 2 : 4);
  for (int q = 0; q < sessions; q++) {
    bool ro = q > 0 && g.r.chance(150) && style == 0;
    int from = g.nid;
    g.xopen(0, 0, q == 0 ? (g.r.chance(800) ? 0 : 3) : ro ? 2 : (g.r.chance(800) ? 1 : 3), rearr);
    if (q > 0 && g.r.chance(500)) g.op(K_VERIFY, 0);
    if (style != 2) from = g.nid;
    g.xwork(0, 0, (int)g.r.range(1, 15 + nk), nk, !ro);
    if (style == 0 && g.r.chance(150)) {        // the object is opened again without a close
      g.op(K_XOPEN, 0, 0, g.r.chance(500) ? 1 : 2, 0, 2, g.p.ops.back().a[5]);
      for (auto &o : g.p.ops) if (o.k == K_XOPEN && o.a[0] == 0) g.p.ops.back().a[5] = o.a[5];
      g.op(K_VERIFY, 0);
    }
    if (style == 2) { g.op(K_CLOSE, 0, g.r.chance(300)); add_faults(g.p, fr, (int)g.r.range(1, 3), {C_WRITE, C_WRITE, C_FSYNC}, {A_ERR_EIO, A_ERR_ENOSPC, A_SHORT}, 300, from); g.xopen(0, 0, 2); g.op(K_VERIFY, 0); g.xscan(0, false); g.op(K_CLOSE, 0); break; }
    if (style == 3) {
      g.op(K_SYNC, 0); from = g.nid;
      int n = (int)g.r.range(0, 8); for (int i = 0; i < n; i++) g.xget(0, 0, nk);
      bool power = g.r.chance(500);
      if (g.r.chance(300)) g.op(K_CLOSE, 0);
      if (g.r.chance(500)) add_faults(g.p, fr, 1, {C_ANYIO}, power ? std::vector<int>{A_POWER_BEFORE, A_POWER_AFTER} : std::vector<int>{A_KILL_BEFORE, A_KILL_TORN, A_KILL_AFTER}, 0, from);
      g.op(K_CRASH, power, (i64)(g.r.next() >> 2));
      g.xopen(0, 0, 2); g.look(0); g.op(K_CLOSE, 0);
      continue;
    }
    g.op(K_CLOSE, 0, g.r.chance(200));
  }
  if (style == 1) {
    g.p.set("strict_reads", 1);
    int from = g.nid; g.xopen(0, 0, g.r.chance(700) ? 2 : 1, 0);
    g.xwork(0, 0, (int)g.r.range(2, 25), nk, false, g.r.chance(200));
    add_faults(g.p, fr, (int)g.r.range(1, 4), {C_READ}, g.r.chance(500) ? std::vector<int>{A_ERR_EIO} : std::vector<int>{A_ERR_EIO, A_SHORT}, 200, from);
    g.op(K_CLOSE, 0);
  }
  g.xopen(0, 0, 2); g.look(0); g.op(K_CLOSE, 0);
  return g.p;
}
static Plan gen_p12(u64 seed) { return gen_xstore("P12", seed, false); }
static Plan gen_p13(u64 seed) { return gen_xstore("P13", seed, true); }
// P14: the merger
static Plan gen_p14(u64 seed) {
  XGen g("P14", seed);
  g.bin = g.r.chance(600);
  int n = (int)g.r.range(1, 4);
  g.ens = true; g.xfile(0, 4096); g.par(0, "ncfg", n); i64 elen = g.w<i64>({{1, 1}, {0, 1}, {g.r.range(1, 60), 6}, {g.r.range(1, 1500), 2}}); g.par(0, "elen", elen);
  g.ens = false;
  int nk = (int)g.w<int>({{1, 1}, {4, 3}, {15, 4}, {50, 2}}), keys = (int)g.r.range(1, nk);
  std::set<int> ks; while ((int)ks.size() < keys) ks.insert((int)g.r.below(nk));
  i64 mask = (1 << n) - 1; if (g.bin && g.r.chance(350)) mask &= (i64)g.r.below(1 << n); if (!mask && g.r.chance(800)) mask = 1 << g.r.below(n);
  int flaw = g.r.chance(150) ? 1 + (int)g.r.below(4) : 0, fi = (int)g.r.below(n); if (flaw && !elen) g.par(0, "elen", elen = 1);      // one source lacks a key, has other sizes, is missing, is empty
  bool extra = g.r.chance(200);
  for (int i = 0; i < n; i++) {
    int f = 1 + i; g.xfile(f, 4096); g.par(f, "kstyle", g.par(0, "kstyle")); g.par(f, "bsize", g.par(0, "bsize")); g.par(f, "ncfg", 0); g.par(f, "hash", g.par(0, "hash")); g.par(f, "cmp", g.par(0, "cmp"));
    if (!(mask >> i & 1) && g.r.chance(500)) continue;
    if (flaw == 3 && i == fi) continue;
    g.xopen(0, f, 0);
    std::vector<int> order(ks.begin(), ks.end());
    for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[g.r.below(j)]);
    for (size_t j = 0; j < order.size(); j++) {
      if (flaw == 4 && i == fi) break;
      if (flaw == 1 && i == fi && j + 1 == order.size()) break;
      i64 l = elen; if (flaw == 2 && i == fi && j == 0) l += g.r.chance(500) ? 1 : elen > 1 ? -1 : 2;
      g.op(K_PUT, 0, order[j], g.nextvid++, l, g.r.below(3));
      if (g.r.chance(100)) g.op(K_PUT, 0, order[j], g.nextvid++, l, g.r.below(3));
    }
    if (extra && i == n - 1 && i > 0) g.op(K_PUT, 0, nk + 5, g.nextvid++, elen, 0);
    g.op(K_CLOSE, 0);
  }
  g.ens = true;
  g.xopen(0, 0, g.r.chance(800) ? 0 : 3);
  Rng fr(mix64(seed, 1414)); int from = g.nid;
  i64 one = (elen + 20) * n;
  g.op(K_XMERGE, 0, mask, g.w<i64>({{1, 1}, {one - 1, 1}, {one, 1}, {one * 2, 2}, {one * (i64)g.r.range(1, keys + 1), 4}, {10000000, 3}}), g.r.below(2), 1);
  g.op(K_VERIFY, 0); g.op(K_GET_ALL, 0);
  if (g.r.chance(300)) { for (int i = 0; i < 4; i++) { g.op(K_XDONE, 0); g.op(K_XUPD, 0, *ks.begin(), g.nextvid++, g.r.below(n)); } }
  g.op(K_CLOSE, 0, g.r.chance(300));
  int style = g.w<int>({{0, 6}, {1, 3}, {2, 2}, {3, 2}});
  if (style == 1) add_faults(g.p, fr, (int)g.r.range(1, 3), {C_READ, C_OPEN}, {A_ERR_EIO, A_SHORT}, 200, from);
  if (style == 2) add_faults(g.p, fr, (int)g.r.range(1, 3), {C_WRITE}, {A_ERR_EIO, A_ERR_ENOSPC, A_SHORT}, 300, from);
  if (style == 3) { add_faults(g.p, fr, 1, {C_ANYIO}, {A_KILL_BEFORE, A_KILL_TORN, A_KILL_AFTER, A_POWER_BEFORE}, 0, from); g.op(K_CRASH, 0, 0); }
  g.xopen(0, 0, 2); g.look(0, false); g.op(K_CLOSE, 0);
  g.ens = false;
  for (int i = 0; i < n; i++) if (g.r.chance(400)) { g.xopen(0, 1 + i, 2); g.look(0, false); g.op(K_CLOSE, 0); }      // the sources are as they were
  return g.p;
}
// P15: several files, the first that has the key answers
static Plan gen_p15(u64 seed) {
  XGen g("P15", seed);
  g.bin = false; g.ens = g.r.chance(350);
  int n = (int)g.r.range(1, 3), nk = (int)g.w<int>({{3, 2}, {12, 4}, {40, 2}});
  bool ens = g.ens;
  for (int f = 0; f < n; f++) {
    g.xfile(f, 4096); g.par(f, "kstyle", g.par(0, "kstyle")); g.par(f, "bsize", g.par(0, "bsize")); g.par(f, "hash", 0);
    if (g.r.chance(30)) continue;       // missing
    g.xopen(0, f, 0, -1, ens ? X_ENS_S : X_SINGLE_S);
    int c = (int)g.r.below(nk + 1); if (ens && !c) c = 1;
    for (int i = 0; i < c; i++) g.xput(0, f, nk, 1);
    if (g.r.chance(600)) g.op(K_SET_UI, 0, g.nextvid++, g.r.below(90));
    g.op(K_CLOSE, 0);
  }
  std::vector<i64> fs; for (int f = 0; f < n; f++) fs.push_back(f);
  for (size_t j = fs.size(); j > 1; j--) std::swap(fs[j - 1], fs[g.r.below(j)]);
  while (fs.size() < 3) fs.push_back(-1);
  Rng fr(mix64(seed, 1515)); int from = g.nid; int slots = g.r.chance(300) ? 2 : 1;
  for (int q = 0; q < slots; q++) g.op(K_XOPENM, q, fs[q ? 1 : 0], fs[q ? 0 : 1], fs[2], ens ? X_EMULTI : X_MULTI);
  if (g.r.chance(600)) from = g.nid;
  int ops = (int)g.r.range(4, 50);
  for (int i = 0; i < ops; i++) { int sl = (int)g.r.below(slots); if (g.r.chance(50)) g.op(K_GET_UI, sl); else if (g.r.chance(40)) g.op(K_SCAN, sl, 0); else { int k = g.r.chance(900) ? (int)g.r.below(nk) : 80000000; if (g.r.chance(120)) g.op(K_XEXIST, sl, k); else g.op(K_GET, sl, k, g.r.below(2)); } }
  if (g.r.chance(500)) { g.p.set("strict_reads", 1); add_faults(g.p, fr, (int)g.r.range(1, 4), {C_READ}, g.r.chance(600) ? std::vector<int>{A_ERR_EIO} : std::vector<int>{A_ERR_EIO, A_SHORT}, 200, from); }
  g.op(K_VERIFY, 0); for (int q = 0; q < slots; q++) g.op(K_CLOSE, q, g.r.chance(300));
  return g.p;
}

// P16: databases written earlier, on this or another kind of machine, by this or the previous version of the format
static int golden_count() { static int n = -1; if (n < 0) { n = 0; Golden g; while (golden_read(n, g)) n++; } return n; }
static Plan gen_p16(u64 seed) {
  XGen g("P16", seed);
  int n = golden_count(); if (!n) { fprintf(stdout, "no golden files in %s\n", golden_dir.c_str()); exit(96); }
  int idx = (int)g.r.below(n); Golden gd; golden_read(idx, gd);
  if (gd.par["kstyle"] == 8 && !gd.len.empty()) {    // lists of free pages, and chains that are split soon
    g.p.set("hash0", gd.par["hash"]); g.p.set("kstyle0", 8); g.p.set("bsize0", gd.par["bsize"]); g.p.set("nb0", gd.par["nb"]); g.p.set("cmp0", gd.par["cmp"]);
    g.nextvid = 500000; g.len[0] = gd.len;
    std::vector<int> kids; for (auto &e : gd.len) kids.push_back(e.first);
    i64 bs = gd.par["bsize"]; int id = 1000, rearr = g.w<int>({{0, 3}, {1, 1}, {-1, 2}});
    auto put = [&](int h, int c, i64 l) { int kid = (id++ & 2047) | (h & 2047) << 11 | c << 22; kids.push_back(kid); g.op(K_PUT, 0, kid, g.nextvid++, l, 0); };
    auto any = [&]() { return kids[g.r.below(kids.size())]; };
    g.op(K_LOAD, 0, idx);
    for (int q = (int)g.r.range(1, 3); q > 0; q--) {
      g.open(0, 0, 1, rearr);
      if (g.r.chance(400)) g.op(K_VERIFY, 0);
      for (int i = (int)g.r.range(1, 12); i > 0; i--) switch (g.r.below(6)) {
        case 0: case 1: put((int)g.r.below(2048), 0, g.r.range(1, 12 * bs)); break;
        case 2: g.op(K_GET, 0, any(), 0); break;
        case 3: case 4: { int h = (any() >> 11) & 2047, o = (any() >> 11) & 2047; for (int c = (int)g.r.range(1, 12); c > 0; c--) put(g.r.chance(500) ? h : o, (int)g.r.range(1, 3), g.r.range(0, 60)); break; }
        default: if (g.r.chance(300)) g.op(K_SYNC, 0); else g.scan(0, g.r.range(0, 20));
      }
      g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
    }
    g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_SCAN, 0, 0, 0, 0, 0); g.op(K_CLOSE, 0);
    return g.p;
  }
  for (auto &e : gd.par) if (e.first != "kind" && e.first != "moved" && e.first != "mncfg" && e.first != "uimax") g.par(0, e.first.c_str(), e.second);
  int kind = (int)gd.par["kind"]; g.len[0] = gd.len; g.nextvid = 500000;
  g.ens = kind == X_ENS_S || kind == X_ENS_B; g.bin = kind == X_SINGLE_B || kind == X_ENS_B;
  g.op(K_LOAD, 0, idx);
  int nk = std::max(3, (int)gd.len.size() * 3 / 2);
  int sessions = (int)g.r.range(1, 4); int rearr = g.w<int>({{0, 3}, {1, 2}, {-1, 2}});
  for (int s = 0; s < sessions; s++) {
    bool ro = g.r.chance(s ? 300 : 600);
    int mode = ro ? 2 : g.r.chance(800) ? 1 : 3;
    if (kind) {
      g.xopen(0, 0, mode, rearr, kind == X_SIMPLE || kind == X_SINGLE_S ? (g.r.chance(500) ? X_SIMPLE : X_SINGLE_S) : kind);
      if (g.r.chance(700)) g.look(0);
      if (g.r.chance(800)) g.xwork(0, 0, (int)g.r.range(1, 20), nk, !ro);
      g.op(K_CLOSE, 0, g.r.chance(200));
    } else {
      g.open(0, 0, mode, rearr);
      if (g.r.chance(700)) { g.op(K_VERIFY, 0); g.scan(0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); }
      Gen::Mix m = g.mix();
      if (g.r.chance(800)) g.work(0, 0, (int)g.r.range(1, 40), nk, m, !ro);
      g.op(K_CLOSE, 0);
    }
  }
  if (kind) { g.xopen(0, 0, 2, -1, kind); g.look(0); }
  else { g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_SCAN, 0, 0, 0, 0, 0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); }
  g.op(K_CLOSE, 0);
  return g.p;
}

// P21: memory stays within the configured cache
static Plan gen_p21(u64 seed) {
  Rng r(mix64(seed, 2121));
  if (r.chance(400)) {
    typedef Plan (*gf)(u64);
    static const gf all[] = {gen_p01, gen_p02, gen_p03, gen_p08, gen_p10, gen_p11};
    Plan p = all[r.below(sizeof all / sizeof *all)](seed);
    p.prop = "P21"; p.set("mem_check", 1);
    return p;
  }
  Gen g("P21", seed);
  g.file(0, 4096);
  int nk = std::max(30, g.nkeys()), sessions = (int)g.r.range(1, 3);
  g.p.set("mem_check", 1);
  for (int q = 0; q < sessions; q++) {
    bool ro = q > 0 && g.r.chance(300);
    g.open(0, 0, q == 0 ? 0 : ro ? 2 : 1); g.p.ops.back().a[3] = g.r.range(1, 12);
    Gen::Mix m = g.mix(); m.hostile = g.r.below(3); if (ro) { m.get += 3; m.put = 0; }
    int from = g.nid; bool bad = q > 0 && g.r.chance(500);
    if (bad) { m.put = 0; m.sync = 0; }
    g.work(0, 0, (int)g.r.range(20, 250), nk, m, !ro && !bad);
    if (bad) add_faults(g.p, r, (int)g.r.range(5, 40), {C_READ}, {A_ERR_EIO, A_SHORT}, 200, from);
    if (g.r.chance(400)) {            // cursors that jump: no page stays in use behind them
      g.op(K_CUR_OPEN, 0, 0); int n = (int)g.r.range(1, 60), far = (int)g.r.range(1, 20);
      for (int i = 0; i < n; i++) {
        bool fwd = g.r.chance(500); if (g.r.chance(900)) g.op(K_CUR_GET, 0, fwd ? FFDB_FIRST : FFDB_LAST, g.r.below(2));
        for (int j = (int)g.r.below(far); j > 0; j--) g.op(K_CUR_GET, 0, fwd || g.r.chance(50) ? FFDB_NEXT : FFDB_PREV, g.r.below(2));
        if (g.r.chance(60)) { g.op(K_CUR_CLOSE, 0); g.op(K_CUR_OPEN, 0, 0); }
      }
      g.op(K_CUR_CLOSE, 0);
    }
    g.op(K_VERIFY, 0);
    g.op(K_CLOSE, 0);
  }
  g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  return g.p;
}
// P23: records which are no objects of the store's classes
static Plan gen_p23(u64 seed) {
  Gen g("P23", seed);
  int n = (int)g.r.range(1, 3);
  for (int i = 0; i < n; i++) g.op(K_XODD, g.w<int>({{1, 3}, {3, 3}, {5, 3}, {6, 1}, {7, 1}, {8, 2}}), g.r.below(8), (i64)(g.r.next() >> 2), g.r.range(1, 30));
  return g.p;
}
// P18: nothing stays behind; the histories of the other properties, with every failure they inject
static Plan gen_p18(u64 seed) {
  Rng r(mix64(seed, 1818));
  typedef Plan (*gf)(u64);
  static const gf all[] = {gen_p01, gen_p02, gen_p03, gen_p08, gen_p08, gen_p10, gen_p11, gen_p12, gen_p13, gen_p14, gen_p14, gen_p15, gen_p16, gen_p23};
  Plan p = all[r.below(sizeof all / sizeof *all)](seed);
  p.prop = "P18"; p.set("leak_check", 1);
  if (p.ops[0].k != K_XODD && r.chance(150)) {        // memory runs out in the C library instead
    p.set("malloc_faults", 1); p.set("strict_reads", 0); p.faults.clear();
    add_faults(p, r, (int)r.range(1, 4), {C_MALLOC}, {A_ERR_ENOMEM}, 100, 0);
  }
  return p;
}
// P22: space
static Plan gen_p22_(u64 seed) {
  Rng r(mix64(seed, 2222));
  if (r.chance(400)) {
    typedef Plan (*gf)(u64);
    static const gf all[] = {gen_p01, gen_p02, gen_p02, gen_p11};
    Plan p = all[r.below(sizeof all / sizeof *all)](seed);
    p.prop = "P22"; p.set("space_check", 1);
    return p;
  }
  Gen g("P22", seed);
  g.file(0, 8192);
  int nk = g.nkeys();
  g.p.set("space_check", 1);
  if (g.r.chance(150)) {                  // many sessions with a small value or two each
    g.p.set("bsize0", g.w<int>({{1024, 1}, {2048, 2}, {4096, 2}, {8192, 2}})); g.p.set("kstyle0", g.w<int>({{0, 3}, {1, 2}, {4, 1}})); g.p.set("nb0", 1);
    if (g.r.chance(600)) g.p.set("hash0", 0);
    int n = (int)g.r.range(60, 250), ra = (int)g.r.below(3), kid = 0;
    for (int q = 0; q < n; q++) {
      g.open(0, 0, q ? 1 : 0, ra == 2 ? -1 : ra);
      for (int c = g.r.chance(850) ? 1 : (int)g.r.range(0, 3); c > 0; c--) g.op(K_PUT, 0, kid++, g.nextvid++, g.r.range(0, 60), 0);
      if (g.r.chance(50)) g.get(0, 0, nk);
      g.op(K_CLOSE, 0);
    }
    g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
    return g.p;
  }
  populate(g, 0, nk, -1);
  int sessions = (int)g.r.range(1, 6); bool drip = g.r.chance(150); if (drip) sessions = (int)g.r.range(10, 60);   // a key or two per session
  for (int q = 0; q < sessions; q++) {
    g.open(0, 0, 1);
    int n = drip ? (int)g.r.range(0, 4) : (int)g.r.range(0, 40); bool fresh = g.r.chance(drip ? 900 : 150);
    for (int i = 0; i < n; i++) switch (g.r.below(8)) {
      case 0: g.get(0, 0, nk); break;
      case 1: g.op(K_SYNC, 0); break;
      case 2: g.scan(0); break;
      case 3: g.cfg(0, 0, false); break;
      case 4: g.put(0, 0, nk, fresh ? 1 : 4); if (!fresh) g.p.ops.back().a[1] = g.existing(0, nk); break;
      default: g.put(0, 0, nk, g.r.chance(850) ? 2 : 3);
    }
    g.op(K_CLOSE, 0);
  }
  g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  return g.p;
}
static Plan gen_p22(u64 seed) {
  Plan p = gen_p22_(seed);
  Op o = p.ops.back(); for (auto &q : p.ops) o.id = std::max(o.id, q.id);
  o.id++; o.t = 0; o.k = K_SAVED; for (auto &x : o.a) x = 0;
  bool one = Rng(mix64(seed, 2323)).chance(400); if (one) { p.set("nb0", 1); for (auto &q : p.ops) if (q.k == K_OPEN && q.a[1] == 0) q.a[4] = 0; }   // never rearranged before
  p.ops.push_back(o);
  return p;
}
// P20: what is not a proper database is refused
static Plan gen_p20(u64 seed) {
  Gen g("P20", seed);
  g.file(0, 8192); g.file(1, 4096);
  int nk = g.nkeys();
  populate(g, 0, nk, -1);
  bool other = g.r.chance(400), ro = g.r.chance(500);
  if (other) { g.open(1, 1, 0); Gen::Mix m = g.mix(); m.cur = 0; g.work(1, 1, (int)g.r.range(1, 20), nk, m, true); if (g.r.chance(500)) g.op(K_SYNC, 1); }
  if (ro) g.open(0, 0, 2);
  int n = (int)g.r.range(1, 8);
  for (int i = 0; i < n; i++) {
    g.op(K_BADOPEN, 0, g.r.below(11), (i64)(g.r.next() >> 2), g.r.below(3), g.r.chance(500) ? 0 : g.r.range(1, 5));
    if (g.r.chance(200)) g.op(K_VERIFY, g.r.below(2));
    if (other && g.r.chance(200)) { Gen::Mix m = g.mix(); m.cur = 0; g.work(1, 1, (int)g.r.range(1, 5), nk, m, true); }
  }
  if (ro) { g.op(K_VERIFY, 0); g.op(K_CLOSE, 0); }
  if (other) { g.op(K_VERIFY, 1); g.op(K_CLOSE, 1); }
  if (g.r.chance(500)) g.open(0, 0, 2); else g.open(0, 0, 1);
  g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
  if (other) { g.open(1, 1, 2); g.op(K_VERIFY, 1); g.op(K_CLOSE, 1); }
  g.op(K_CORRUPT, 0, (i64)(g.r.next() >> 2), g.r.chance(700) ? 2 : 3, 0);
  g.open(0, 0, 2);
  for (int i = 0; i < 10; i++) g.get(0, 0, nk);
  g.op(K_VERIFY, 0); g.scan(0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0);
  g.op(K_CLOSE, 0);
  for (int i = 0; i < 4; i++) { g.open(0, 0, 2); int c = (int)g.r.range(1, 12); for (int j = 0; j < c; j++) g.get(0, 0, nk); if (g.r.chance(300)) g.scan(0); if (g.r.chance(200)) { g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); } g.op(K_CLOSE, 0); }
  g.p.set("leak_check", 1);
  return g.p;
}
// P19: memory runs out
static Plan gen_p19(u64 seed) {
  Gen g("P19", seed);
  g.file(0, 4096);
  int nk = g.nkeys();
  Rng fr(mix64(seed, 1919));
  g.p.set("malloc_faults", 1);
  std::vector<int> oom = {A_ERR_ENOMEM};
  if (fr.chance(350)) {              // through the C++ classes
    typedef Plan (*gf)(u64);
    static const gf all[] = {gen_p12, gen_p13, gen_p14, gen_p15};
    Plan p = all[fr.below(sizeof all / sizeof *all)](seed);
    p.prop = "P19"; p.set("malloc_faults", fr.chance(500) ? 2 : 1); p.set("strict_reads", 0); p.faults.clear();
    add_faults(p, fr, (int)fr.range(1, 4), {C_MALLOC}, oom, 200, 0);
    return p;
  }
  if (fr.chance(400)) {
    typedef Plan (*gf)(u64);
    static const gf all[] = {gen_p11, gen_p02, gen_p03};
    Plan p = all[fr.below(sizeof all / sizeof *all)](seed);
    p.prop = "P19"; p.set("malloc_faults", 1); p.set("strict_reads", 0); p.faults.clear();
    add_faults(p, fr, (int)fr.range(1, 4), {C_MALLOC}, oom, 200, 0);
    return p;
  }
  if (g.r.chance(500)) {             // while reading
    populate(g, 0, nk, -1);
    bool ro = g.r.chance(600);
    int sessions = (int)g.r.range(1, 3);
    for (int q = 0; q < sessions; q++) {
      int from = g.nid;
      g.open(0, 0, ro ? 2 : 1, 0);
      Gen::Mix m = g.mix(); m.cur = g.r.below(2); m.hostile = 0; m.get = 6; m.scan = 1; m.put = 0; m.sync = 0;
      g.work(0, 0, (int)g.r.range(1, 40), nk, m, false);
      add_faults(g.p, fr, (int)g.r.range(1, 4), {C_MALLOC}, oom, 200, from);
      g.op(K_VERIFY, 0);
      g.op(K_CLOSE, 0);
      g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_CLOSE, 0);
    }
  } else {
    int sessions = (int)g.r.range(1, 3);
    int rearr = g.w<int>({{0, 5}, {1, 2}, {-1, 2}});
    for (int q = 0; q < sessions; q++) {
      g.open(0, 0, q == 0 ? 0 : 1, rearr);
      int from = g.nid - (g.r.chance(300));
      Gen::Mix m = g.mix(); m.cur = 0; m.hostile = 0;
      g.work(0, 0, (int)g.r.range(1, 15 + nk), nk, m, true);
      if (g.r.chance(500)) g.op(K_VERIFY, 0);
      if (g.r.chance(500)) { g.op(K_SYNC, 0); g.op(K_SYNC, 0); if (g.r.chance(400)) g.op(K_CRASH, 0, 0); }
      g.op(K_CLOSE, 0);
      add_faults(g.p, fr, (int)g.r.range(1, 4), {C_MALLOC}, oom, 300, from);
      g.open(0, 0, 2); g.op(K_VERIFY, 0); if (g.r.chance(500)) g.scan(0); g.op(K_CLOSE, 0);
    }
  }
  return g.p;
}
// P17: several databases at once, in turn or by several threads
static Plan gen_p17(u64 seed) {
  Gen g("P17", seed);
  int nf = (int)g.r.range(2, 4), nk = g.w<int>({{3, 3}, {12, 4}, {40, 2}});
  bool threads = g.r.chance(700), shared = g.r.chance(250);       // shared: one file, a read-only handle each
  for (int f = 0; f < nf; f++) g.file(f, 2048);
  if (shared) {
    g.open(0, 0, 0); int n = (int)g.r.range(1, nk + 5); for (int i = 0; i < n; i++) g.put(0, 0, nk, 1);
    g.cfg(0, 0, true); g.op(K_CLOSE, 0);
  }
  bool fresh = threads && g.r.chance(500);     // the threads find the files, and a process which has not used the library
  if (fresh && !shared) for (int f = 0; f < nf; f++) { g.open(0, f, 0); int n = (int)g.r.range(0, nk + 5); for (int i = 0; i < n; i++) g.put(0, f, nk, 1); g.op(K_CLOSE, 0); }
  if (fresh) g.op(K_CRASH, 0, 0, 0);
  std::vector<int> state((size_t)nf, fresh && !shared ? 1 : 0);      // 0 never created, 1 closed, 2 open for writing, 3 read-only
  auto file_of = [&](int q) { return shared ? 0 : q; };
  // in turn, and one of the databases meets failing reads (then it is only read) or failing writes (in one session)
  int victim = !threads && !shared && g.r.chance(500) ? (int)g.r.below(nf) : -1, vwrites = 0; bool vend = false;
  if (victim >= 0) { vwrites = g.r.chance(400); g.p.set("victim", victim + 1); g.open(victim, victim, 0); int n = (int)g.r.range(1, nk + 5); for (int i = 0; i < n; i++) g.put(victim, victim, nk, 1); g.op(K_CLOSE, victim); state[victim] = 1; }
  int from = g.nid;
  auto step = [&](int q) {
    int f = file_of(q);
    if (state[q] < 2) {
      int mode = shared ? 2 : state[q] == 0 ? 0 : g.r.chance(300) ? 2 : 1;
      if (q == victim) { mode = vwrites && !vend ? 1 : 2; vend = true; }
      g.open(q, f, mode); state[q] = mode == 2 ? 3 : 2; return;
    }
    switch (g.r.below(14)) {
      case 0: g.op(K_CLOSE, q); state[q] = 1; break;
      case 1: if (g.r.chance(500)) g.op(K_VERIFY, q); else g.scan(q, g.r.chance(300) ? g.r.range(1, 6) : 0); break;
      case 2: g.cfg(q, f, state[q] == 2); break;
      case 3: if (state[q] == 2) g.op(K_SYNC, q); else g.get(q, f, nk); break;
      case 4: case 5: case 6: case 7: g.get(q, f, nk); break;
      default: if (state[q] == 2) g.put(q, f, nk); else g.get(q, f, nk);
    }
  };
  int rounds = threads ? 1 + g.r.chance(200) : 1;
  for (int z = 0; z < rounds; z++) {
    if (!(fresh && z == 0) && g.r.chance(500)) for (int q = 0; q < nf; q++) step(q);
    int per = (int)g.r.range(2, threads ? 14 : 40);
    if (threads) {
      g.op(K_MTREAD);
      for (int q = 0; q < nf; q++) { g.tid = q + 1; for (int i = 0; i < per; i++) step(q); }
      g.tid = 0;
    } else for (int i = 0; i < per * nf; i++) step((int)g.r.below(nf));
  }
  for (int q = 0; q < nf; q++) { if (state[q] < 2) { g.open(q, file_of(q), 2); } g.op(K_VERIFY, q); g.op(K_CLOSE, q); }
  for (int q = 0; q < nf; q++) { g.open(q, file_of(q), 2); g.op(K_VERIFY, q); }
  for (int q = 0; q < nf; q++) { g.op(K_SCAN, q, 0, 0, 0, 0); g.op(K_CLOSE, q); }
  sched_params(g);
  g.p.set("mt_budget", 2000000000ll);
  if (victim >= 0) {
    std::set<int> mine; for (auto &o : g.p.ops) if (o.id >= from && o.a[0] == victim) mine.insert(o.id);
    Rng fr(mix64(seed, 1717));
    add_faults(g.p, fr, (int)g.r.range(3, 12), vwrites ? std::vector<int>{C_WRITE, C_WRITE, C_FSYNC, C_TRUNC} : std::vector<int>{C_READ, C_READ, C_SEEK, C_OPEN}, vwrites ? std::vector<int>{A_ERR_EIO, A_ERR_ENOSPC, A_SHORT} : std::vector<int>{A_ERR_EIO, A_SHORT}, 0, from);
    std::vector<Fault> in; for (auto &x : g.p.faults) if (mine.count(x.op)) in.push_back(x);
    g.p.faults.swap(in);
  }
  return g.p;
}

// P24: several threads use one handle, also for storing
static Plan gen_p24(u64 seed) {
  Gen g("P24", seed);
  g.file(0, 4096);
  int nk = g.w<int>({{6, 1}, {20, 2}, {60, 4}, {200, 3}});
  g.p.set("lin", 1);
  g.open(0, 0, 0);
  int n = (int)g.r.range(0, nk / 2);
  for (int i = 0; i < n; i++) g.put(0, 0, nk, 1);
  if (g.r.chance(400)) { g.op(K_CLOSE, 0); g.open(0, 0, 1); }
  int rounds = (int)g.r.range(1, 2); bool crashed = false;
  for (int q = 0; q < rounds; q++) {
    g.op(K_MTREAD);
    int nt = (int)g.r.range(2, 4), per = (int)g.r.range(1, 15), other = g.w<int>({{0, 3}, {100, 2}, {300, 1}}), gets = g.w<int>({{0, 1}, {200, 2}, {500, 2}, {800, 1}});
    int hot = g.w<int>({{0, 2}, {300, 2}, {800, 1}}), nh = (int)g.r.range(1, 4), hk[4]; for (int &x : hk) x = (int)g.r.below(nk);
    bool scans = g.r.chance(300);         // nothing is modified, but synced
    for (int t = 1; t <= nt; t++) {
      g.tid = t;
      for (int i = 0; i < per; i++) {
        if (scans) { if (t == 1 && g.r.chance(700)) g.op(K_SYNC, 0); else if (g.r.chance(500)) g.get(0, 0, nk); else g.scan(0, g.r.chance(300) ? g.r.range(1, 5) : 0); continue; }
        if (g.r.chance(other)) { if (t == 1 && g.r.chance(700)) g.cfg(0, 0, true); else g.op(K_SYNC, 0); continue; }
        int k = g.r.chance(hot) ? hk[g.r.below(nh)] : (int)g.r.below(nk);
        if (g.r.chance(gets)) { g.op(K_GET, 0, k, g.r.below(2)); continue; }
        auto &m = g.len[0]; i64 l = g.vlen(0); int flag = g.r.chance(200) ? FFDB_NOOVERWRITE : 0;
        if (m.count(k) && g.r.chance(700)) l = g.r.range(0, m[k]);
        g.op(K_PUT, 0, k, g.nextvid++, l, flag);
        if (!m.count(k)) m[k] = l; else if (!flag && l <= m[k]) m[k] = l;
      }
    }
    g.tid = 0;
    if (scans && g.r.chance(400)) { g.op(K_CRASH, g.r.below(2), (i64)(g.r.next() >> 2)); crashed = true; break; }       // what was synced beside the scans is safe
    g.op(K_VERIFY, 0);
    if (g.r.chance(400)) for (int i = (int)g.r.range(1, 10); i > 0; i--) g.put(0, 0, nk);
  }
  if (!crashed) {
    g.op(K_VERIFY, 0); g.scan(0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0);
    g.op(K_CLOSE, 0);
  }
  g.open(0, 0, 2); g.op(K_VERIFY, 0); g.op(K_SCAN, 0, 0, 0, 0, 0); g.op(K_GET_ALL, 0); g.op(K_GET_UI, 0, 0, 0); g.op(K_CLOSE, 0);
  sched_params(g);
  g.p.set("mt_budget", 2000000000ll);
  return g.p;
}

typedef Plan (*genfn)(u64);
static const std::map<std::string, genfn> gens = {{"P01", gen_p01}, {"P02", gen_p02}, {"P03", gen_p03}, {"P04", gen_p04}, {"P05", gen_p05}, {"P06", gen_p06}, {"P07", gen_p07}, {"P08", gen_p08}, {"P09", gen_p09}, {"P10", gen_p10}, {"P11", gen_p11}, {"P12", gen_p12}, {"P13", gen_p13}, {"P14", gen_p14}, {"P15", gen_p15}, {"P16", gen_p16}, {"P17", gen_p17}, {"P18", gen_p18}, {"P19", gen_p19}, {"P20", gen_p20}, {"P23", gen_p23}, {"P22", gen_p22}, {"P21", gen_p21}, {"P24", gen_p24}};
Plan gen_plan(const std::string &prop, u64 seed) {
  auto i = gens.find(prop);
  if (i != gens.end()) return i->second(seed);
  fprintf(stdout, "unknown property %s\n", prop.c_str()); exit(96);
}
bool known_prop(const std::string &) { return true; }

bool gen_skip_faults = false;
static void add_faults(Plan &p, Rng &r, int n, const std::vector<int> &calls, const std::vector<int> &acts, int repeat_pm, int from_op) {
  if (gen_skip_faults) return;
  // profile pass: count the calls each operation makes, then place faults uniformly over them
  Run pr; run_once(p, pr, false, true);
  std::vector<std::array<int, 3>> pts;
  for (auto &e : pr.prof) if (e.first >= from_op) for (int c : calls) for (int i = 0; i < e.second[c]; i++) pts.push_back({e.first, c, i});
  if (pts.empty()) return;
  for (int i = 0; i < n; i++) {
    auto &q = pts[r.below(pts.size())];
    Fault f; f.op = q[0]; f.call = q[1]; f.nth = q[2]; f.act = acts[r.below(acts.size())]; f.arg = (i64)(r.next() >> 2); f.repeat = r.chance(repeat_pm) ? (int)r.range(1, 40) : 0;
    p.faults.push_back(f);
  }
}

XStore *x_make(int kind, const XOpt &o) __attribute__((weak));
void exec_plan(Plan &p) { engine_run(p); }
void run_once(Plan &p, Run &r, bool keep_log, bool profiling) {
  R = &r;
  r.plan = &p; r.keep_log = keep_log; r.profiling = profiling;
  memset(r.fired, 0, sizeof r.fired); memset(r.fired_call, 0, sizeof r.fired_call); memset(r.calls, 0, sizeof r.calls);
  r.fault_done.assign(p.faults.size(), 0); r.fault_left.assign(p.faults.size(), 0);
  fs_reset(); heap_reset(); sched_reset(); lib_vars_reset(); sim_malloc_faults = (int)p.get("malloc_faults", 0);
  r.hash = mix64(p.seed, 1);
  exec_plan(p);
  if (x_make) trace("end");        // (the C++ classes fill tables of theirs once per real process)
  else trace("end steps=%llu", (unsigned long long)r.total_steps);
  heap_reset(); fs_reset(); sched_reset();
  R = nullptr;
}
