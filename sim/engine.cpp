#include "engine.h"
#include "xstore.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>

const char *k_names[K_NK] = {"open", "close", "put", "get", "sync", "scan", "curopen", "curget", "curclose", "verify", "setcfg", "getcfg", "setall", "getall", "setui", "getui", "crash", "corrupt", "mt", "unlink", "hostile", "quota", "load", "saved", "xopen", "xupdate", "xdone", "xmerge", "xopenm", "xexist", "xodd", "badopen"};

// ---------------------------------------------------------------- data
// The byte content of keys and values is a function of small integers, so a
// replay file is short and any mix-up of values is visible.
// Values of ensembles are rows of elements; the rows a run has seen are numbered from ENS_BASE on.
static const i64 ENS_BASE = 1000000000000ll;
struct Row { std::vector<i64> evid; i64 elen = 0; };      // element 0: blank
static std::vector<Row> rows;
std::string val_bytes(const Val &v) {
  if (v.vid >= ENS_BASE) {
    const Row &r = rows[(size_t)(v.vid - ENS_BASE)]; std::string s;
    for (i64 e : r.evid) { if (e) { Val q; q.vid = e; q.len = r.elen; s += val_bytes(q); } else s.append((size_t)r.elen, '\0'); }
    return s;
  }
  std::string s((size_t)v.len, '\0');
  u64 style = mix64((u64)v.vid, 991) % 8;
  if (style == 0) { memset(&s[0], (int)(v.vid & 0xff), s.size()); }
  else {
    Rng r(mix64((u64)v.vid, 12345));
    size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) { u64 x = r.next(); memcpy(&s[i], &x, 8); }
    u64 x = r.next(); for (; i < s.size(); i++, x >>= 8) s[i] = (char)x;
  }
  for (size_t i = 0; i < s.size() && i < 8; i++) s[i] = (char)((u64)v.vid >> (8 * i));
  return s;
}
// largest key that fits on an empty page of this size, by the documented page
// layout (header 28 bytes + pair overhead): computed once from the header macro
int max_key(int bsize);
static std::string mk_key(int style, int kid, int maxk) {
  Rng r(mix64(kid, 4242 + style));
  std::string s;
  char b[64];
  switch (style) {
    case 0: { s.assign((const char *)&kid, 4); size_t n = 4 + r.below(20); while (s.size() < n) s.push_back((char)r.next()); break; }
    case 1: { snprintf(b, sizeof b, "proton_momentum_%08d", kid); s = b; break; }
    case 2: { s.assign((size_t)(1 + kid % std::max(1, maxk)), 'x'); if (kid >= maxk) { s = std::string("y") + std::to_string(kid); } break; }
    case 3: { s.assign(3, '\0'); s.append((const char *)&kid, 4); size_t n = 7 + r.below(30); while (s.size() < n) s.push_back('\0'); break; }
    case 4: { size_t n = (size_t)std::max(8, maxk - (int)r.below(40)); s.assign((const char *)&kid, 4); while (s.size() < n) s.push_back((char)r.next()); break; }
    case 5: { size_t n = (size_t)r.range(4, std::max(4, maxk)); s.assign((const char *)&kid, 4); while (s.size() < n) s.push_back((char)r.next()); break; }
    case 6: { s.assign(1, (char)kid); if (kid > 255) s += std::to_string(kid); break; }
    case 7: { s = std::to_string(kid); break; }
    // the key's hash (for the hash function that reads it there), its number and its length class are in the kid
    case 8: { unsigned h = ((unsigned)kid >> 11) & 2047; int id = kid & 2047, c = (kid >> 22) & 3; const int len[] = {9, maxk / 7, maxk * 3 / 7, maxk * 5 / 7};
              s.assign((const char *)&h, 4); s.append((const char *)&id, 4); s.push_back((char)c); while ((int)s.size() < len[c]) s.push_back((char)r.next()); break; }
    default: { s = "k" + std::to_string(kid); }
  }
  if ((int)s.size() > maxk) s.resize((size_t)maxk);
  return s;
}
static int fpar(const Plan &p, int f, const char *n, int d) { char b[40]; snprintf(b, sizeof b, "%s%d", n, f); return (int)p.get(b, p.get(n, d)); }
std::string key_bytes(const Plan &p, int file, int kid) {
  int bs = fpar(p, file, "bsize", 512), st = fpar(p, file, "kstyle", 0);
  if (kid >= 100000000) { // deliberately long keys: length is kid - 1e8
    std::string s((size_t)(kid - 100000000), 'L'); return s;
  }
  return mk_key(st, kid, max_key(bs));
}
// hash functions a user may supply
static unsigned h_const(const void *, unsigned) { return 7; }
static unsigned h_first(const void *p, unsigned n) { return n ? *(const unsigned char *)p : 0; }
static unsigned h_id(const void *p, unsigned n) { unsigned v = 0; memcpy(&v, p, n < 4 ? n : 4); return v; }
static unsigned h_high(const void *p, unsigned n) { return (unsigned)hash_bytes(p, n) & 0xffff0000u; }
static unsigned h_mod3(const void *p, unsigned n) { return (unsigned)(hash_bytes(p, n) % 3); }
static unsigned h_good(const void *p, unsigned n) { return (unsigned)(hash_bytes(p, n) >> 7); }
static unsigned h_ones(const void *p, unsigned n) { return ~((unsigned)hash_bytes(p, n) & 7u); }
typedef unsigned (*hashfn)(const void *, unsigned);
static hashfn hashes[] = {nullptr, h_const, h_first, h_id, h_high, h_mod3, h_good, h_ones};
static int cmp_user(const FFDB_DBT *a, const FFDB_DBT *b) {
  if (a->size != b->size) return a->size < b->size ? -1 : 1;
  return memcmp(a->data, b->data, (size_t)a->size);
}

// ---------------------------------------------------------------- model
struct KeyState {
  std::vector<Val> poss;      // values a read may return
  bool absent = false;        // a read may report absence
};
struct Cfg { int config = 0, index = 0, inserted = 0, type = 0, mtime = 0; std::string fname; bool operator==(const Cfg &o) const { return config == o.config && index == o.index && inserted == o.inserted && type == o.type && mtime == o.mtime && fname == o.fname; } };
struct FileModel {
  bool exists = false;
  std::map<int, KeyState> live;
  std::map<int, std::set<Val>> ever;
  std::map<std::string, int> kid_of;
  std::vector<std::string> ui; bool ui_any = false;    // possible user infos; ui_any: unspecified
  std::map<int, std::vector<Cfg>> cfg;                     // index -> possible entries
  int ncfg = 1; unsigned uimax = 4000; bool cfg_unknown = false;
  bool weak = false;      // contents may be lost (after a crash or failed write): only "never garbage" is claimed
  bool unjudged = false;  // holds an unspecified part of a refused merge
  bool gone = false;      // may be unopenable
  bool corrupt = false;   // a stored bit was flipped
  bool werr = false;      // a write-side call reported failure in this session
  int synced = 1;         // 2: a sync promised everything in `live` (power safe), 1: closed cleanly (kill safe), 0: neither
  u64 sz[2] = {0, 0};     // size of the file after a session without new keys, by page rearrangement
  bool moved = false;     // a close may have moved pages: the next open for writing moves them back
  bool wsess_dirty = false;
  std::map<int, Val> inflight;   // put being executed
};
struct Slot { FFDB_DB *db = nullptr; int file = -1; bool ro = false; bool poisoned = false; u64 hash0 = 0; int cache = 0; bool rearr = false; u64 size0 = 0; bool grew = false; XStore *x = nullptr; int kind = 0; bool empty = false, esz = false; std::vector<int> many; std::vector<u64> mhash; };
struct Cur { ffdb_cursor_t *c = nullptr; int slot = -1; int state = 0; /*0 clean 1 positioned 2 exhausted*/ std::set<int> seen; int dir = 0; bool pure = true; bool wrote = false; bool failed = false; /* reported an error: not positioned until FIRST or LAST */ };

struct World {
  Plan &p;
  FileModel fm[8];
  Slot sl[4];
  Cur cu[6];
  bool faulty = false;         // an injected fault made a modifying call fail in the current process life
  u64 op_f0 = 0;               // faults fired before the current operation
  World(Plan &pl) : p(pl) {}
};
static World *W;
static std::string fpath(int f) { char b[32]; snprintf(b, sizeof b, "/sim/db%d", f); return b; }
static u64 total_fired() { u64 t = 0; for (int i = 0; i < A_NACTS; i++) t += R->fired[i]; return t; }

static u64 op_budget(const FileModel &m, int bsize, u64 vlen) {
  u64 keys = m.live.size() + 20, kbytes = 0;
  for (auto &k : m.kid_of) kbytes += k.first.size() + 40;
  // splitting a bucket whose keys all collide walks its chain once per key, and each page may be read and checked again
  u64 chain = 2 * kbytes / (u64)bsize + 4;
  return 3000000ull + 60ull * (u64)bsize * 40 + 60 * vlen + keys * (20000ull + 60ull * (u64)bsize) + keys * chain * (8ull * (u64)bsize + 4000) + 100ull * m.uimax;
}

// threads share one budget
static void set_limit(u64 n) { if (!sched_active) R->step_limit = n; }
// a fault in one thread may reach the others, which wait for the same page
static u64 fired_mark() { return sched_active ? W->op_f0 : total_fired(); }

// Run a library call; death of the simulated process lands here.
#define LIB_CALL(stmt)                        \
  do {                                        \
    R->steps = 0;                             \
    in_lib = true;                            \
    stmt;                                     \
    in_lib = false;                           \
  } while (0)

static const char *valstr(const Val &v) { static char b[4][64]; static int i; i = (i + 1) & 3; snprintf(b[i], 64, "v%lld/%lld", (long long)v.vid, (long long)v.len); return b[i]; }

// ---------------------------------------------------------------- observation of one read
// rc: 0 found with `got`, 1 absent, -1 error
static void observe(FileModel &m, int kid, int rc, const std::string &got, const char *what, bool err_ok, bool narrow) {
  auto it = m.live.find(kid);
  if (rc == 0) {
    Val hit; bool ok = false;
    if (it != m.live.end())
      for (auto &v : it->second.poss) if ((i64)got.size() == v.len && got == val_bytes(v)) { ok = true; hit = v; break; }
    if (ok) { if (narrow && !m.weak) { it->second.poss.assign(1, hit); it->second.absent = false; } return; }
    if (m.weak) {
      auto e = m.ever.find(kid);
      if (e != m.ever.end()) for (auto &v : e->second) if ((i64)got.size() == v.len && got == val_bytes(v)) return;
    }
    violate("wrong-value", "%s key %d returned %zu bytes that were never (validly) stored under it; expected %s", what, kid, got.size(),
            it == m.live.end() ? "absent" : it->second.poss.empty() ? "absent" : valstr(it->second.poss[0]));
  } else if (rc == 1) {
    if (m.weak) return;
    if (it == m.live.end() || it->second.absent) { if (narrow && it != m.live.end()) m.live.erase(it); return; }
    violate("missing", "%s key %d reported absent; expected %s", what, kid, valstr(it->second.poss[0]));
  } else {
    if (err_ok || m.weak) return;
    violate("spurious-error", "%s key %d returned an error without cause", what, kid);
  }
}

// ---------------------------------------------------------------- single operations
static int bsize_of(int f) { return fpar(W->p, f, "bsize", 512); }
static std::string path_ro_hash(int f) { return fpath(f); }

static bool file_busy(int f, bool ro, Slot *me) {
  for (auto &q : W->sl) {
    if (&q == me || !(q.db || q.x)) continue;
    if (q.file == f && !(q.ro && ro)) return true;
    if (!ro) for (int g : q.many) if (g == f) return true;
  }
  return false;
}
static int perms_of(int f) { static const int t[] = {0664, 0600, 0644, 0640, 0666, 0660}; return t[(f + W->p.seed) % 6]; }
static void do_open_op(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  int f = (int)o.a[1];
  FileModel &m = W->fm[f];
  if (s.db) return;
  if (s.x || file_busy(f, o.a[2] == 2, nullptr)) return;   // several readers, or one writer
  if ((o.a[2] == 1 || o.a[2] == 3) && (m.weak || m.gone || m.corrupt)) return;      // writing to a damaged database is not claimed
  FFDB_HASHINFO hi; memset(&hi, 0, sizeof hi);
  int bs = bsize_of(f);
  bool creating = o.a[2] == 0 || (o.a[2] == 3 && !fs_exists(fpath(f)));
  hi.bsize = bs; hi.nbuckets = fpar(W->p, f, "nb", 1);
  if (!creating) {
    // on reopen the stored parameters rule, whatever the caller passes
    if (o.a[5] & 1) { hi.bsize = 4096; }
    if (o.a[5] & 2) { hi.bsize = 0; hi.nbuckets = 0; }
    if (o.a[5] & 4) { hi.nbuckets = 37; }
  }
  hi.cachesize = (unsigned long)o.a[3] * (unsigned long)bs;
  hi.rearrangepages = (int)(o.a[4] & 1);
  hi.userinfolen = fpar(W->p, f, "uilen", 0);
  hi.numconfigs = fpar(W->p, f, "ncfg", 0);
  if (!creating && (o.a[5] & 8)) { hi.userinfolen = 17; hi.numconfigs = 3; }
  hi.hash = hashes[fpar(W->p, f, "hash", 0)];
  hi.cmp = fpar(W->p, f, "cmp", 0) ? cmp_user : nullptr;
  int flags = o.a[2] == 0 ? O_RDWR | O_CREAT | O_TRUNC : o.a[2] == 1 ? O_RDWR : o.a[2] == 2 ? O_RDONLY : O_RDWR | O_CREAT;
  u64 f0 = total_fired();
  bool existed = fs_exists(fpath(f)) && m.exists;
  FFDB_DB *db = nullptr;
  set_limit(op_budget(m, bs, 0) * 6 + 400000000ull + 400ull * hi.userinfolen);
  u64 h0 = (o.a[2] == 2) ? fs_hash(fpath(f)) : 0;
  s.size0 = fs_size(fpath(f)); s.grew = creating || o.a[2] == 0;
  bool touches = creating || o.a[2] == 0 || (o.a[2] != 2 && (m.moved || hi.rearrangepages));
  if (touches) m.synced = 0;
  if (creating || o.a[2] == 0) { m = FileModel(); m.exists = m.weak = m.gone = true; m.synced = 0; }   // until the call returns
  int perm = perms_of(f), fresh = !fs_exists(fpath(f));
  LIB_CALL(db = ffdb_dbopen(fpath(f).c_str(), flags, perm, &hi));
  bool fired = total_fired() != f0;
  trace("open f%d mode=%lld -> %s", f, (long long)o.a[2], db ? "ok" : "null");
  if (!db) {
    // more pages of information than a file can have may be refused
    if (creating && !fired && ((u64)hi.userinfolen + 4) / (u64)(bsize_of(f) - 28) + (u64)hi.numconfigs * 160 / (u64)(bsize_of(f) - 28) > 60000) { R->stat["huge_info_refused"]++; fs_unlink(fpath(f)); m = FileModel(); return; }
    if (creating && !fired) { violate("open-refused", "creating database %d failed without cause", f); return; }
    if (fired || m.weak || m.gone || m.corrupt) {
      if (fired && o.a[2] == 0) { m.weak = true; m.gone = true; }
      if (fired && o.a[2] != 2) { m.weak = true; m.gone = true; }   // interrupted open for writing
      return;
    }
    if (o.a[2] == 1 && !existed) return;
    if (o.a[2] == 2 && !existed) return;
    violate("open-refused", "opening database %d (mode %lld) failed without cause", f, (long long)o.a[2]);
    return;
  }
  if (fresh && W->p.prop == "P02" && fs_mode(fpath(f)) != (perm & ~022)) { violate("file-mode", "database %d was created with permissions %o, asked for were %o under a mask of 022", f, fs_mode(fpath(f)), perm); return; }
  if (o.a[2] == 2 && !existed && !m.exists) { /* opened something that never was a database */ }
  s.db = db; s.file = f; s.ro = o.a[2] == 2; s.poisoned = false; s.cache = (int)o.a[3]; s.hash0 = h0; s.rearr = hi.rearrangepages;
  if (creating || o.a[2] == 0) {
    m = FileModel();
    m.exists = true;
    m.ncfg = hi.numconfigs > 0 ? hi.numconfigs : 1; m.uimax = hi.userinfolen > 0 ? hi.userinfolen : 4000;
    m.ui.assign(1, std::string());
    for (auto &k : std::set<int>()) (void)k;
    m.synced = 0;
    if (fired) m.weak = true;
  } else if (fired && o.a[2] != 2) { m.werr = true; }
  if (!s.ro) { m.wsess_dirty = true; if (touches) m.moved = false; }
  if (fired) s.poisoned = true;
}

// with a victim, only that database meets faults
static bool faulty_for(int f) { i64 v = W->p.get("victim", 0); return W->faulty && (!v || v == f + 1); }
static void slot_close(int i) { Slot &s = W->sl[i]; s.db = nullptr; s.x = nullptr; s.many.clear(); for (auto &c : W->cu) if (c.c && c.slot == i) { c.c = nullptr; } }

static void cur_close(int ci) {
  Cur &c = W->cu[ci];
  if (!c.c) return;
  ffdb_cursor_t *q = c.c; c.c = nullptr;
  int rc = 0;
  LIB_CALL(rc = q->close(q));
  if (rc != 0 && !faulty_for(W->sl[c.slot].file)) violate("cursor-close", "closing a cursor failed: %d", rc);
}

static void do_close_op(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  FileModel &m = W->fm[s.file];
  for (int i = 0; i < 6; i++) if (W->cu[i].c && W->cu[i].slot == o.a[0]) cur_close(i);
  int rc = 0; u64 f0 = total_fired();
  set_limit(op_budget(m, bsize_of(s.file), 0) * 6 + 400000000ull);
  FFDB_DB *db = s.db; int f = s.file; bool ro = s.ro;
  trace("close f%d begin", f);
  bool touches = !ro && s.rearr;
  if (touches) { m.synced = 0; m.moved = true; }
  LIB_CALL(rc = db->close(db));
  bool fired = total_fired() != f0;
  trace("close f%d -> %d", f, rc);
  u64 h0 = s.hash0;
  slot_close((int)o.a[0]);
  if (ro) {
    if (fs_hash(fpath(f)) != h0) violate("ro-modified", "database %d changed while open read-only", f);
    if (rc != 0 && !fired && !faulty_for(f) && !m.corrupt) violate("close-failed", "closing a read-only database failed: %d", rc);
    return;
  }
  if (rc != 0) {
    if (!fired && !m.werr && !s.poisoned && !faulty_for(f) && !m.weak) { violate("close-failed", "close returned %d without cause", rc); return; }
    m.weak = true; m.gone = true;        // failure was reported: contents no longer promised
    R->stat["close_reported"]++;
    return;
  }
  m.wsess_dirty = false; if (m.synced < 1) m.synced = 1;
  if (W->p.get("space_check", 0) && !W->faulty && !fired && !m.weak && !s.poisoned) {
    u64 bs = (u64)bsize_of(f), pages = (fs_size(fpath(f)) + bs - 1) / bs, vp = 0, kp = 0;
    for (auto &k : m.ever) { i64 l = 0; for (auto &v : k.second) l = std::max(l, v.len); vp += (u64)(l + 40) + 60 * ((u64)l / (bs - 60) + 1); }
    for (auto &k : m.kid_of) kp += k.first.size() + 40;
    u64 nb = 1; while (nb < (u64)fpar(W->p, f, "nb", 1)) nb *= 2;
    int hf = fpar(W->p, f, "hash", 0); bool gh = hf == 0 || hf == 6;
    u64 ideal = (vp + kp) / (bs - 60) + (gh ? m.live.size() / 16 : m.live.size()) + nb + (m.uimax + bs) / (bs - 60) + (u64)m.ncfg * 520 / (bs - 60) + 10;
    R->stat["space_checks"]++;
    if (pages > (gh ? 3 : 4) * ideal) violate("file-size", "the file has %llu pages, what it holds needs about %llu", (unsigned long long)pages, (unsigned long long)ideal);
  }
  if (s.grew) m.sz[0] = m.sz[1] = 0;
  else if (W->p.get("space_check", 0) && !W->faulty && !fired && !m.weak && !s.poisoned) {
    R->stat["space_checks"]++;
    u64 now = fs_size(fpath(f)), &was = m.sz[s.rearr];
    if (was && now > was) violate("file-growth", "the file grew from %llu to %llu bytes (%lld pages) in a session that stored no new key", (unsigned long long)was, (unsigned long long)now, (long long)(now - was) / bsize_of(f));
    was = now;
  }
  R->stat["close_ok"]++;
}

static void put_result(Slot &s, FileModel &m, int kid, const Val &v, size_t klen, bool too_long, int flag, int rc, bool fired, int was);
static void do_put_op(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  if (!s.ro) for (int i = 0; i < 6; i++) if (W->cu[i].c && W->cu[i].slot == o.a[0]) cur_close(i);     // cursors are not kept across modifications
  FileModel &m = W->fm[s.file];
  int kid = (int)o.a[1];
  std::string kb = key_bytes(W->p, s.file, kid);
  // distinct ids may map to the same bytes (truncated styles): use the first id
  auto ki = m.kid_of.find(kb);
  if (ki == m.kid_of.end()) m.kid_of[kb] = kid; else kid = ki->second;
  Val v; v.vid = o.a[2]; v.len = o.a[3];
  std::string vb = val_bytes(v);
  int flag = (int)o.a[4];
  int bs = bsize_of(s.file);
  // exact-size heap copies: a read past either buffer is seen by ASAN
  char *kp = (char *)malloc(kb.size() ? kb.size() : 1), *vp = (char *)malloc(vb.size() ? vb.size() : 1);
  memcpy(kp, kb.data(), kb.size()); memcpy(vp, vb.data(), vb.size());
  FFDB_DBT k, d; k.data = kp; k.size = (long)kb.size(); d.data = vp; d.size = (long)vb.size();
  int rc = 0; u64 f0 = total_fired();
  set_limit(op_budget(m, bs, vb.size()) + 20000000);
  int was = m.synced;
  if (!s.ro && (int)kb.size() <= max_key(bs)) { m.synced = 0; m.inflight[kid] = v; }
  LIB_CALL(rc = s.db->put(s.db, &k, &d, (unsigned)flag));
  m.inflight.clear();
  bool fired = total_fired() != f0;
  if ((size_t)k.size != kb.size() || k.data != kp || memcmp(kp, kb.data(), kb.size()) || memcmp(vp, vb.data(), vb.size()))
    violate("caller-buffer", "put changed the caller's key or data buffer");
  free(kp); free(vp);
  trace("put f%d k%d %s flag=%d -> %d", s.file, kid, valstr(v), flag, rc);
  put_result(s, m, kid, v, kb.size(), (int)kb.size() > max_key(bs), flag, rc, fired, was);
}
static void put_result(Slot &s, FileModel &m, int kid, const Val &v, size_t klen, bool too_long, int flag, int rc, bool fired, int was) {
  auto it = m.live.find(kid);
  bool certain_present = it != m.live.end() && !it->second.absent;
  bool maybe_present = it != m.live.end();
  if (rc == 0) {
    R->stat["puts"]++;
    if (s.ro) { violate("ro-put", "put succeeded on a read-only handle"); return; }
    if (flag == FFDB_NOOVERWRITE && certain_present && !m.weak) { violate("overwrote", "put with no-overwrite replaced key %d", kid); return; }
    if (flag != 0 && flag != FFDB_NOOVERWRITE) { violate("bad-flag", "put accepted flag %d", flag); return; }
    if (m.live.count(kid)) R->stat["replaces"]++; else s.grew = true;
    KeyState st; st.poss.push_back(v);
    m.live[kid] = st;
    m.ever[kid].insert(v);
    if (fired) s.poisoned = true;
    return;
  }
  R->stat["puts_refused"]++;
  if (!fired) m.synced = was;
  if (s.ro || too_long) return;
  if (flag != 0 && flag != FFDB_NOOVERWRITE) return;
  if (maybe_present && flag == FFDB_NOOVERWRITE) return;
  if (fired || s.poisoned || m.weak || m.corrupt) {
    // failed because of a fault: old or new
    m.werr = true; s.poisoned = true; m.weak = true;
    m.ever[kid].insert(v);
    KeyState &st = m.live[kid];
    if (!maybe_present) st.absent = true;
    st.poss.push_back(v);
    R->stat["put_fault_reported"]++;
    return;
  }
  if (maybe_present) {
    i64 cur = 0; for (auto &q : it->second.poss) cur = std::max(cur, q.len);
    if (v.len > cur) return;             // growing a stored value is refused
  }
  violate("put-refused", "put of key %d (%zu bytes, value %lld bytes) failed with %d without cause", kid, klen, (long long)v.len, rc);
}

static int expected_kid(FileModel &m, const std::string &kb, int kid) { auto i = m.kid_of.find(kb); return i == m.kid_of.end() ? kid : i->second; }
static i64 biggest(FileModel &m, int kid) { i64 n = 0; auto i = m.live.find(kid); if (i != m.live.end()) for (auto &v : i->second.poss) n = std::max(n, v.len); if (m.weak) for (auto &v : m.ever[kid]) n = std::max(n, v.len); return n; }

static void do_get(int slot, int kid, int bufmode, const char *what, bool narrow = true) {
  Slot &s = W->sl[slot];
  if (!s.db) return;
  FileModel &m = W->fm[s.file];
  std::string kb = key_bytes(W->p, s.file, kid);
  kid = expected_kid(m, kb, kid);
  char *kp = (char *)malloc(kb.size() ? kb.size() : 1); memcpy(kp, kb.data(), kb.size());
  FFDB_DBT k, d; k.data = kp; k.size = (long)kb.size(); d.data = nullptr; d.size = 0;
  i64 big = biggest(m, kid);
  char *ub = nullptr; size_t cap = 0;
  bool small = false;
  if (bufmode == 1) cap = (size_t)big;
  if (bufmode == 2) cap = (size_t)big + 1 + (size_t)(kid % 97);
  if (bufmode == 3 && big > 1) { cap = (size_t)(1 + (u64)kid * 7919 % (u64)(big - 1)); small = true; }
  if (cap) { ub = (char *)malloc(cap); memset(ub, 0xA5, cap); d.data = ub; d.size = (long)cap; }
  int rc = 0; u64 f0 = fired_mark();
  set_limit(op_budget(m, bsize_of(s.file), (u64)big) + 20000000);
  LIB_CALL(rc = s.db->get(s.db, &k, &d, 0));
  bool fired = total_fired() != f0;
  std::string got;
  if (rc == 0) {
    if (d.size < 0 || (ub && (size_t)d.size > cap && d.data == ub)) violate("bad-size", "get of key %d set size %ld for a buffer of %zu", kid, d.size, cap);
    else if (d.size > 0 && d.data) got.assign((char *)d.data, (size_t)d.size);
  }
  if (d.data && d.data != ub) free(d.data);
  if (ub) free(ub);
  if (memcmp(kp, kb.data(), kb.size())) violate("caller-buffer", "get changed the caller's key");
  free(kp);
  trace("%s f%d k%d buf%d -> %d %zu", what, s.file, kid, bufmode, rc, got.size());
  if (R->violated) return;
  int r = rc == 0 ? 0 : rc > 0 ? 1 : -1;
  bool err_ok = fired || s.poisoned || m.corrupt;
  if (small && r == -1) return;         // refused: buffer too small
  if (fired && r == -1) R->stat["get_fault_reported"]++;
  R->stat["gets"]++;
  observe(m, kid, r, got, what, err_ok, narrow);
}

static void do_verify(int slot) {
  Slot &s = W->sl[slot];
  if (!s.db) return;
  FileModel &m = W->fm[s.file];
  std::vector<int> ks;
  if (m.weak) { for (auto &e : m.ever) ks.push_back(e.first); }
  else for (auto &e : m.live) ks.push_back(e.first);
  int i = 0;
  for (int k : ks) { do_get(slot, k, (i++ % 5 == 1) ? 1 : 0, "verify"); if (R->violated || !s.db) return; }
  for (int j = 0; j < 3; j++) { do_get(slot, 90000000 + j, 0, "verify-absent"); if (R->violated) return; }
}

// walk the whole database with a cursor
static void do_scan(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  FileModel &m = W->fm[s.file];
  int dir = (int)o.a[1], mode = (int)o.a[2]; i64 stop = o.a[3];
  ffdb_cursor_t *c = nullptr; int rc = 0;
  u64 f0 = fired_mark();
  set_limit(op_budget(m, bsize_of(s.file), 0) * 2 + 20000000 + 2 * (u64)fpar(W->p, s.file, "nb", 1) * (8ull * bsize_of(s.file) + 4000));
  LIB_CALL(rc = s.db->cursor(s.db, &c, FFDB_KEY_CURSOR));
  if (rc != 0 || !c) { if (total_fired() == f0) violate("cursor-open", "cursor could not be created: %d", rc); return; }
  std::set<int> seen; i64 n = 0; bool done = false, err = false;
  size_t bound = m.weak ? 4 * m.ever.size() + 50 : m.live.size() + 2;
  while (!done) {
    FFDB_DBT k, d; memset(&k, 0, sizeof k); memset(&d, 0, sizeof d);
    char *kub = nullptr, *dub = nullptr; size_t kcap = 0, dcap = 0;
    if (mode == 2) { kcap = 4 + (size_t)max_key(bsize_of(s.file)); kub = (char *)malloc(kcap); k.data = kub; k.size = (long)kcap; i64 b = 1; for (auto &e : m.ever) for (auto &v : e.second) b = std::max(b, v.len); dcap = (size_t)b; dub = (char *)malloc(dcap); d.data = dub; d.size = (long)dcap; }
    int flag = dir ? FFDB_PREV : FFDB_NEXT;
    if (n == 0 && (o.a[4] & 1)) flag = dir ? FFDB_LAST : FFDB_FIRST;
    LIB_CALL(rc = c->get(c, &k, mode == 1 ? nullptr : &d, (unsigned)flag));
    if (rc == 0) {
      std::string kb, db;
      if (k.size > 0 && k.data) kb.assign((char *)k.data, (size_t)k.size);
      if (d.size > 0 && d.data && mode != 1) db.assign((char *)d.data, (size_t)d.size);
      n++;
      trace("scan k=%zu/%llx d=%zu", kb.size(), (unsigned long long)hash_bytes(kb.data(), kb.size()), db.size());
      auto ki = m.kid_of.find(kb);
      if (ki == m.kid_of.end() || (!m.weak && !m.live.count(ki->second))) violate("phantom", "scan produced a key of %zu bytes that was never stored", kb.size());
      else {
        if (!seen.insert(ki->second).second && !m.weak) violate("duplicate", "scan visited key %d twice", ki->second);
        if (mode != 1) observe(m, ki->second, 0, db, "scan", false, false);
      }
    } else done = true;
    if (rc < 0) err = true;
    if (k.data && k.data != kub) free(k.data);
    if (d.data && d.data != dub && mode != 1) free(d.data);
    if (kub) { free(kub); free(dub); }
    if (R->violated) return;
    if ((size_t)n > bound) { violate("endless", "scan produced %lld entries for %zu keys", (long long)n, m.live.size()); return; }
    if (stop && n >= stop) break;
  }
  LIB_CALL(rc = c->close(c));
  R->stat["scans"]++;
  bool excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
  if (err) {
    if (!excuse) violate("spurious-error", "cursor returned an error without cause after %lld entries", (long long)n);
    return;
  }
  if (done && !m.weak) {
    for (auto &e : m.live) if (!e.second.absent && !seen.count(e.first)) { violate("scan-missed", "scan (%s) ended after %lld entries and missed key %d", dir ? "backward" : "forward", (long long)n, e.first); return; }
  }
}

// ---------------------------------------------------------------- long lived cursors
static void do_cur_open(const Op &o) {
  Slot &s = W->sl[o.a[0]]; Cur &c = W->cu[o.a[1]];
  if (!s.db || c.c) return;
  int rc = 0; ffdb_cursor_t *q = nullptr; u64 f0 = total_fired();
  set_limit(20000000);
  LIB_CALL(rc = s.db->cursor(s.db, &q, FFDB_KEY_CURSOR));
  if (rc != 0 || !q) { if (total_fired() == f0) violate("cursor-open", "cursor could not be created: %d", rc); return; }
  c = Cur(); c.c = q; c.slot = (int)o.a[0];
}
static void do_cur_get(const Op &o) {
  Cur &c = W->cu[o.a[0]];
  if (!c.c) return;
  Slot &s = W->sl[c.slot]; FileModel &m = W->fm[s.file];
  int flag = (int)o.a[1], rc = 0; bool nodata = o.a[2] & 1;
  FFDB_DBT k, d; memset(&k, 0, sizeof k); memset(&d, 0, sizeof d);
  u64 f0 = total_fired();
  set_limit(op_budget(m, bsize_of(s.file), 0) * 2 + 20000000 + 2 * (u64)fpar(W->p, s.file, "nb", 1) * (8ull * bsize_of(s.file) + 4000));
  LIB_CALL(rc = c.c->get(c.c, &k, nodata ? nullptr : &d, (unsigned)flag));
  std::string kb, db;
  if (rc == 0) { if (k.size > 0 && k.data) kb.assign((char *)k.data, (size_t)k.size); if (!nodata && d.size > 0 && d.data) db.assign((char *)d.data, (size_t)d.size); }
  if (k.data) free(k.data);
  if (d.data) free(d.data);
  trace("curget %lld flag=%d -> %d %llx", (long long)o.a[0], flag, rc, (unsigned long long)hash_bytes(kb.data(), kb.size()));
  bool excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
  if (flag == FFDB_FIRST || flag == FFDB_LAST) { c.seen.clear(); c.pure = true; c.dir = flag == FFDB_FIRST ? 1 : -1; c.state = 0; c.wrote = false; c.failed = false; }
  else if (flag == FFDB_NEXT || flag == FFDB_PREV) {
    int dd = flag == FFDB_NEXT ? 1 : -1;
    if (c.state == 0 && c.seen.empty() && c.dir == 0) c.dir = dd;
    if (c.dir != dd) c.pure = false;       // turned around: only local facts are claimed
  } else { if (rc == 0) violate("bad-flag", "cursor accepted flag %d", flag); return; }
  if (rc == 0) {
    c.state = 1;
    auto ki = m.kid_of.find(kb);
    if (ki == m.kid_of.end() || (!m.weak && !m.live.count(ki->second))) { violate("phantom", "cursor produced a key of %zu bytes that was never stored", kb.size()); return; }
    if (c.pure && !c.seen.insert(ki->second).second && !m.weak) { violate("duplicate", "cursor visited key %d twice", ki->second); return; }
    if (!nodata) observe(m, ki->second, 0, db, "cursor", false, false);
  } else if (rc > 0) {
    if (c.state != 2 && c.pure && !m.weak && !c.wrote && !c.failed)
      for (auto &e : m.live) if (!e.second.absent && !c.seen.count(e.first)) { violate("scan-missed", "cursor ended after %zu entries and missed key %d", c.seen.size(), e.first); return; }
    c.state = 2;
  } else {
    if (!excuse && !c.failed) violate("spurious-error", "cursor returned an error without cause (flag %d)", flag);
    c.failed = true;
  }
}

// ---------------------------------------------------------------- configs and user info
static Cfg mk_cfg(i64 cid, int index) {
  Rng r(mix64((u64)cid, 31)); Cfg c;
  c.config = (int)r.next(); c.index = index; c.inserted = (int)(r.next() & 1); c.type = (int)r.below(100); c.mtime = (int)(r.next() & 0x7fffffff);
  if (cid % 3 == 0) c.config = (int)cid;
  size_t n = r.below(_FFDB_MAX_FNAME - 1);
  if (cid % 7 == 0) n = _FFDB_MAX_FNAME - 1;
  for (size_t i = 0; i < n; i++) c.fname.push_back((char)('a' + r.below(26)));
  return c;
}
static void to_c(const Cfg &c, ffdb_config_info_t *o) {
  memset(o, 0, sizeof *o);
  o->config = c.config; o->index = c.index; o->inserted = c.inserted; o->type = c.type; o->mtime = c.mtime;
  memcpy(o->fname, c.fname.data(), c.fname.size());
}
static Cfg from_c(const ffdb_config_info_t *o) {
  Cfg c; c.config = o->config; c.index = o->index; c.inserted = o->inserted; c.type = o->type; c.mtime = o->mtime;
  c.fname.assign(o->fname, strnlen(o->fname, _FFDB_MAX_FNAME)); return c;
}
// Possible entries of every slot; only meaningful once the table has been written as a whole (m.cfg is then full).
static bool cfg_ok(FileModel &m, int idx, const Cfg &g) {
  auto i = m.cfg.find(idx);
  if (i == m.cfg.end()) return false;
  for (auto &q : i->second) if (q == g) return true;
  return false;
}
static void do_cfg(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  FileModel &m = W->fm[s.file];
  u64 f0 = total_fired(); int rc = 0;
  set_limit(op_budget(m, bsize_of(s.file), 0) + 20000000 + (u64)m.ncfg * 20000);
  unsigned nc = 0;
  LIB_CALL(nc = ffdb_num_configs(s.db));
  if (!m.weak && !m.corrupt && (int)nc != m.ncfg) { violate("config-count", "number of configurations is %u, expected %d", nc, m.ncfg); return; }
  bool fired, excuse;
  int idx = (int)o.a[1];
  bool in = idx >= 0 && idx < m.ncfg && !m.cfg.empty();
  switch (o.k) {
    case K_SET_CFG: {                        // an entry is replaced only if its index and its configuration number match
      Cfg c = mk_cfg(o.a[2], idx);
      if (in) c.config = m.cfg[idx].back().config;
      bool legal = in && !s.ro;
      if (o.a[3]) { c.config = -5 - (int)(o.a[3] & 7); legal = false; }
      ffdb_config_info_t *ci = (ffdb_config_info_t *)malloc(sizeof *ci); to_c(c, ci);
      if (legal) m.synced = 0;
      LIB_CALL(rc = ffdb_set_config(s.db, ci));
      free(ci);
      fired = total_fired() != f0; excuse = fired || s.poisoned || m.weak || m.corrupt;
      trace("setcfg %d num=%d -> %d", idx, c.config, rc);
      if (rc == 0) {
        if (s.ro) { violate("ro-set", "information was changed through a read-only handle"); return; }
        if (!legal && !m.weak && !m.corrupt) { violate("config-accepted", "set_config accepted index %d number %d, which no entry has", idx, c.config); return; }
        if (legal) { m.cfg[idx].assign(1, c); }
        R->stat["cfg_sets"]++;
      } else if (legal) {
        if (!excuse && m.cfg[idx].size() == 1) { violate("config-refused", "set_config(%d of %d) failed without cause", idx, m.ncfg); return; }
        m.cfg[idx].push_back(c); if (fired) m.werr = true;
      }
      break;
    }
    case K_GET_CFG: {                        // looked up by configuration number
      unsigned num = in ? (unsigned)m.cfg[idx].back().config : (unsigned)-3;
      if (o.a[3]) num = (unsigned)(-5 - (int)(o.a[3] & 7));
      ffdb_config_info_t *ci = (ffdb_config_info_t *)malloc(sizeof *ci); memset(ci, o.a[2] & 1 ? 0x5a : 0, sizeof *ci);
      LIB_CALL(rc = ffdb_get_config(s.db, num, ci));
      Cfg g; if (rc == 0) g = from_c(ci);
      free(ci);
      fired = total_fired() != f0; excuse = fired || s.poisoned || m.weak || m.corrupt;
      trace("getcfg %d num=%d -> %d", idx, (int)num, rc);
      if (m.cfg.empty()) break;
      if (rc == 0 && !m.weak) {
        if (!in || o.a[3]) { violate("config-accepted", "get_config found configuration number %d, which was never stored", (int)num); return; }
        bool ok = false;
        for (auto &e : m.cfg) if (cfg_ok(m, e.first, g)) ok = true;
        if (!ok || g.config != (int)num) { violate("config-wrong", "configuration %d (slot %d) read back as config=%d index=%d inserted=%d type=%d mtime=%d name=%zu bytes", (int)num, idx, g.config, g.index, g.inserted, g.type, g.mtime, g.fname.size()); return; }
        R->stat["cfg_gets"]++;
      } else if (rc != 0 && in && !o.a[3] && !excuse && m.cfg[idx].size() == 1) violate("config-refused", "get_config(%d, slot %d of %d) failed without cause", (int)num, idx, m.ncfg);
      break;
    }
    case K_SET_ALL: {
      int n = m.ncfg + (int)o.a[2];
      if (n < 1) n = 1;
      ffdb_all_config_info_t all; all.numconfigs = n; all.allconfigs = (ffdb_config_info_t *)malloc(sizeof(ffdb_config_info_t) * (size_t)n);
      std::vector<Cfg> cs;
      for (int i = 0; i < n; i++) { cs.push_back(mk_cfg(o.a[1] * 100 + i, i)); cs[i].config = (int)(o.a[1] % 100000) * 1000 + i; to_c(cs[i], &all.allconfigs[i]); }
      if (!s.ro && n == m.ncfg) m.synced = 0;
      LIB_CALL(rc = ffdb_set_all_configs(s.db, &all));
      free(all.allconfigs);
      fired = total_fired() != f0; excuse = fired || s.poisoned || m.weak || m.corrupt;
      trace("setall %d -> %d", n, rc);
      if (rc == 0) {
        if (n != m.ncfg && !m.weak && !m.corrupt) { violate("config-accepted", "set_all_configs accepted %d entries of %d", n, m.ncfg); return; }
        if (s.ro) { violate("ro-set", "information was changed through a read-only handle"); return; }
        for (int i = 0; i < n; i++) m.cfg[i].assign(1, cs[i]);
        R->stat["cfg_setall"]++;
      } else if (n == m.ncfg && !s.ro) {
        if (!excuse) { violate("config-refused", "set_all_configs failed without cause"); return; }
        if (m.cfg.empty()) m.cfg_unknown = true; else for (int i = 0; i < n; i++) m.cfg[i].push_back(cs[i]);
        if (fired) m.werr = true;
      }
      break;
    }
    case K_GET_ALL: {
      ffdb_all_config_info_t all; memset(&all, 0, sizeof all);
      LIB_CALL(rc = ffdb_get_all_configs(s.db, &all));
      fired = total_fired() != f0; excuse = fired || s.poisoned || m.weak || m.corrupt;
      trace("getall -> %d n=%d", rc, all.numconfigs);
      if (rc == 0) {
        if (!m.weak && !m.corrupt && all.numconfigs != m.ncfg) violate("config-count", "get_all_configs returned %d entries of %d", all.numconfigs, m.ncfg);
        else if (!m.weak && !m.cfg.empty()) {
          for (int i = 0; i < m.ncfg && i < all.numconfigs; i++) { Cfg g = from_c(&all.allconfigs[i]); if (!cfg_ok(m, i, g)) { violate("config-wrong", "configuration %d of %d read back wrong (config=%d index=%d inserted=%d)", i, m.ncfg, g.config, g.index, g.inserted); break; } }
          R->stat["cfg_getall"]++;
        } else if (!m.weak && !m.corrupt && !m.cfg_unknown) {
          for (int i = 0; i < m.ncfg && i < all.numconfigs; i++) if (!(from_c(&all.allconfigs[i]) == Cfg())) { violate("config-wrong", "configuration %d of %d, never stored, is not blank", i, m.ncfg); break; }
        }
      } else if (!excuse) violate("config-refused", "get_all_configs failed without cause");
      if (all.allconfigs) free(all.allconfigs);
      break;
    }
  }
}
static void do_ui(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  FileModel &m = W->fm[s.file];
  u64 f0 = total_fired(); int rc = 0;
  set_limit(op_budget(m, bsize_of(s.file), 0) + 20000000 + 40ull * m.uimax);
  unsigned mx = 0;
  LIB_CALL(mx = ffdb_max_user_info_len(s.db));
  if (!m.weak && !m.corrupt && mx != m.uimax) { violate("uinfo-max", "maximum user info length is %u, expected %u", mx, m.uimax); return; }
  if (o.k == K_SET_UI) {
    Val v; v.vid = o.a[1]; v.len = o.a[2];
    std::string b = val_bytes(v);
    unsigned char *p = (unsigned char *)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
    if (!s.ro && b.size() <= m.uimax) m.synced = 0;
    LIB_CALL(rc = ffdb_set_user_info(s.db, p, (unsigned)b.size()));
    free(p);
    bool excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
    trace("setui %zu -> %d", b.size(), rc);
    bool legal = b.size() <= m.uimax && !s.ro;
    if (rc == 0) {
      if (b.size() > m.uimax && !m.weak) { violate("uinfo-accepted", "user info of %zu bytes accepted, limit %u", b.size(), m.uimax); return; }
      if (s.ro) { violate("ro-set", "information was changed through a read-only handle"); return; }
      m.ui.assign(1, b);
    } else if (legal) {
      if (!excuse) { violate("uinfo-refused", "user info of %zu bytes refused, limit %u", b.size(), m.uimax); return; }
      m.ui.push_back(b); m.werr = true;
    }
  } else {
    unsigned len = m.uimax; size_t cap = m.uimax;
    size_t cl = 0; for (auto &u : m.ui) cl = std::max(cl, u.size());
    bool small = false;
    if (o.a[1] == 1) { cap = cl; len = (unsigned)cap; }
    if (o.a[1] == 2 && cl > 1) { cap = 1 + (size_t)((u64)o.a[2] % (cl - 1)); len = (unsigned)cap; small = true; }
    unsigned char *p = (unsigned char *)malloc(cap ? cap : 1); memset(p, 0xA5, cap);
    LIB_CALL(rc = ffdb_get_user_info(s.db, p, &len));
    std::string g; if (rc == 0 && len <= cap) g.assign((char *)p, len);
    free(p);
    bool excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
    trace("getui -> %d %u", rc, len);
    if (rc == 0 && !m.weak) {
      if (len > cap) { violate("uinfo-wrong", "user info length %u returned for a buffer of %zu", len, cap); return; }
      bool ok = false; for (auto &u : m.ui) ok |= u == g;
      if (!ok) violate("uinfo-wrong", "user info read back as %zu bytes that are not what was stored (%zu bytes)", g.size(), m.ui.empty() ? 0 : m.ui[0].size());
    } else if (rc != 0 && !excuse && !small) violate("uinfo-refused", "reading user info failed without cause");
  }
}

// calls that must be refused or be harmless
static void do_hostile(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  set_limit(200000000);
  int rc = 0; char kb[8] = "hostile"; FFDB_DBT k, d;
  k.data = kb; k.size = 7; d.data = kb; d.size = 7;
  switch (o.a[1]) {
    case 0: LIB_CALL(rc = s.db->put(s.db, &k, &d, 5)); if (rc == 0) violate("bad-flag", "put accepted an unknown flag"); break;
    case 1: { ffdb_cursor_t *c = nullptr; LIB_CALL(rc = s.db->cursor(s.db, &c, 77)); if (rc == 0) violate("bad-flag", "cursor of unknown type created"); break; }
    case 2: LIB_CALL(rc = s.db->sync(nullptr, 0)); if (rc == 0) violate("bad-arg", "sync of a null handle succeeded"); break;
    case 3: { FFDB_DB *q = nullptr; LIB_CALL(q = ffdb_dbopen("/sim/none", O_WRONLY | O_CREAT, 0644, nullptr)); if (q) violate("bad-arg", "write-only open accepted"); break; }
    case 4: { FFDB_DB *q = nullptr; LIB_CALL(q = ffdb_dbopen("/sim/none", O_RDONLY, 0644, nullptr)); if (q) violate("bad-arg", "open of a missing file succeeded"); break; }
    case 5: LIB_CALL(rc = s.db->fd(s.db)); if (rc < 0) violate("bad-arg", "fd of an open database failed"); break;
    case 6: {      // there is no deletion: it must say so
      FileModel &m = W->fm[s.file]; if (m.live.empty()) break;
      auto it = m.live.begin(); std::advance(it, (long)((u64)o.a[2] % m.live.size()));
      std::string q = key_bytes(W->p, s.file, it->first), c = q; k.data = &c[0]; k.size = c.size();
      LIB_CALL(rc = s.db->del(s.db, &k, 0)); if (rc == 0) violate("del", "del of a stored key reported success, which is not supported"); if (c != q) violate("key-modified", "del changed the caller's key");
      break;
    }
    case 8: {      // longer than any value may be: refused before a byte is looked at
      FileModel &m = W->fm[s.file]; std::string q = "hostile";
      if (!m.live.empty() && (o.a[2] & 1)) { auto it = m.live.begin(); std::advance(it, (long)((u64)o.a[2] % m.live.size())); q = key_bytes(W->p, s.file, it->first); }
      k.data = &q[0]; k.size = (long)q.size(); d.size = (1L << 40) + (o.a[2] & 2 ? o.a[2] : 0);
      LIB_CALL(rc = s.db->put(s.db, &k, &d, 0)); if (rc == 0) violate("too-long", "a value of %ld bytes was accepted", (long)d.size);
      break;
    }
    case 7: { ffdb_cursor_t *c = nullptr; LIB_CALL(rc = s.db->cursor(s.db, &c, FFDB_KEY_CURSOR)); if (rc != 0 || !c) break; k.data = d.data = nullptr; k.size = d.size = 0; LIB_CALL(rc = c->get(c, &k, &d, (unsigned)(40 + o.a[2] % 9))); if (rc == 0) violate("bad-flag", "a cursor step with an unknown flag succeeded"); LIB_CALL(c->close(c)); break; }
  }
  trace("hostile %lld -> %d", (long long)o.a[1], rc);
}

// ---------------------------------------------------------------- crash and corruption
static void after_crash(bool power, u64 subset) {
  // only what the disk holds survives
  bool dur[8]; for (int f = 0; f < 8; f++) dur[f] = fs_all_durable(fpath(f));
  fs_crash(power, subset);
  for (int i = 0; i < 4; i++) slot_close(i);
  heap_reset(); sched_reset(); lib_vars_reset();
  for (int f = 0; f < 8; f++) {
    FileModel &m = W->fm[f];
    if (!m.exists) continue;
    bool safe = m.synced == 2 || (m.synced == 1 && (!power || dur[f]));
    if (!safe) { m.weak = true; m.gone = true; }
    for (auto &e : m.inflight) m.ever[e.first].insert(e.second);
    m.inflight.clear();
  }
  W->faulty = false;
}
static bool x_have();
static void do_corrupt(const Op &o) {
  int f = (int)o.a[0];
  FileModel &m = W->fm[f];
  u64 sz = fs_size(fpath(f));
  if (!sz) return;
  Rng r(mix64((u64)o.a[1], 555));
  int bs = bsize_of(f);
  u64 pages = (sz + bs - 1) / bs;
  // pick a page that holds data: all-zero pages are unused by definition
  u64 pg = 0; bool found = false;
  for (int t = 0; t < 40 && !found; t++) {
    pg = o.a[3] == 1 ? 0 : r.below(pages);
    size_t n = (size_t)std::min<u64>((u64)bs, sz - pg * bs);
    std::string c = fs_read_at(fpath(f), pg * bs, n);
    for (char x : c) if (x) { found = true; break; }
  }
  if (!found) return;
  u64 base = pg * (u64)bs; size_t n = (size_t)std::min<u64>((u64)bs, sz - base);
  if (pg == 0) n = std::min<size_t>(n, 344);
  std::string c = fs_read_at(fpath(f), base, n);
  int kind = (int)o.a[2];
  if (kind >= 2) {              // an incomplete copy, or one with something behind it
    for (auto &q : W->sl) if ((q.db || q.x) && q.file == f) return;
    std::string c = fs_content(fpath(f));
    if (kind == 2) c.resize(332 + r.below(sz > 333 ? sz - 333 : 1)); else { size_t n = 1 + r.below(3 * (u64)bs); bool z = r.chance(300); while (n--) c += z ? '\0' : (char)r.next(); }
    fs_set_content(fpath(f), c);
    m.corrupt = true; if (kind == 2) m.weak = m.gone = true;      // a bucket which was never used has no page: absence is all that can be said of a missing one
    R->stat["cut_files"]++; trace("cut to %zu of %llu", c.size(), (unsigned long long)sz);
    return;
  }
  if (kind == 0) {              // 1..3 single bits
    int nb = 1 + (int)r.below(3);
    std::set<u64> bits; while ((int)bits.size() < nb) bits.insert(r.below(n * 8));
    for (u64 b : bits) c[b / 8] ^= (char)(1 << (b % 8));
  } else {                      // burst of at most 32 bits
    u64 len = 2 + r.below(31), at = r.below(n * 8 - len);
    for (u64 b = 0; b < len; b++) if (b == 0 || b == len - 1 || (r.next() & 1)) c[(at + b) / 8] ^= (char)(1 << ((at + b) % 8));
  }
  fs_poke(fpath(f), base, c);
  m.corrupt = true;
  for (auto &q : W->sl) if (q.db && q.file == f && q.ro) q.hash0 = fs_hash(fpath(f));
  R->stat["corruptions"]++;
  trace("corrupt page %llu of %llu", (unsigned long long)pg, (unsigned long long)pages);
}

// ---------------------------------------------------------------- files that are no database
static const char *odd_path = "/sim/odd";
static u64 odd_hash; static bool odd_had;
static unsigned crc32_of(const std::string &b) { unsigned c = ~0u; for (unsigned char x : b) { c ^= x; for (int i = 0; i < 8; i++) c = (c >> 1) ^ ((c & 1) ? 0xedb88320u : 0); } return ~c; }
static unsigned h_other(const void *p, unsigned n) { return (unsigned)(hash_bytes(p, n) >> 11) ^ 0x7a11c0deu; }
static unsigned be32(const std::string &s, size_t at) { return (unsigned)(unsigned char)s[at] << 24 | (unsigned)(unsigned char)s[at + 1] << 16 | (unsigned)(unsigned char)s[at + 2] << 8 | (unsigned char)s[at + 3]; }
static void put32(std::string &s, size_t at, unsigned v) { for (int i = 0; i < 4; i++) s[at + i] = (char)(v >> (24 - 8 * i)); }
enum { BO_MISSING, BO_WRONLY, BO_NULL, BO_EMPTY, BO_RANDOM, BO_CUT, BO_HASH, BO_PAGESIZE, BO_VERSION, BO_MAGIC, BO_TEXT, BO_N };
static bool bo_may_stop(const Op &o) { int v = (int)o.a[1]; return v == BO_EMPTY || v == BO_RANDOM || v == BO_CUT || v == BO_MAGIC || v == BO_TEXT; }
// what must hold after an attempt, also after one which ended the process
static void bo_check(const Op &o) {
  bool is = fs_exists(odd_path);
  if (odd_had && (!is || fs_hash(odd_path) != odd_hash)) violate("odd-changed", "a file that is no proper database (variant %d) was changed by opening it", (int)o.a[1]);
  else if (!odd_had && is && o.a[1] != BO_PAGESIZE) violate("odd-created", "opening a missing file created it");
  fs_unlink(odd_path);
}
int bo_xopen(int kind, int bs, int badsize, const char *path, int flags);
static void do_badopen(const Op &o) {
  int f = (int)o.a[0], v = (int)o.a[1], acc = (int)o.a[3], api = (int)o.a[4], bs = bsize_of(f);
  FileModel &m = W->fm[f];
  if (!m.exists || m.weak || m.gone || m.corrupt || !fs_exists(fpath(f))) return;
  for (auto &q : W->sl) if ((q.db || q.x) && q.file == f && !q.ro) return;
  Rng r(mix64((u64)o.a[2], 777));
  std::string img = fs_content(fpath(f));
  if (img.size() < 400) return;
  bool known = crc32_of(img.substr(0, 328)) == be32(img, 328);     // the header is as we know it
  if (v == BO_NULL || v == BO_HASH) api = 0;
  if (!x_have()) api = 0;
  FFDB_HASHINFO hi; memset(&hi, 0, sizeof hi);
  hi.bsize = bs; hi.nbuckets = 1; hi.cachesize = 8ul * (unsigned long)bs; hi.hash = hashes[fpar(W->p, f, "hash", 0)]; hi.cmp = fpar(W->p, f, "cmp", 0) ? cmp_user : nullptr; hi.rearrangepages = (int)r.below(2);
  int flags = acc == 0 ? O_RDONLY : acc == 1 ? O_RDWR : O_RDWR | O_CREAT, badsize = 0;
  fs_unlink(odd_path); odd_had = true;
  switch (v) {
    case BO_MISSING: odd_had = false; flags &= ~O_CREAT; break;
    case BO_WRONLY: flags = O_WRONLY | (acc == 2 ? O_CREAT : 0); break;
    case BO_NULL: odd_had = false; break;
    case BO_EMPTY: img.clear(); break;
    case BO_RANDOM: { std::string t(1 + r.below(4 * (u64)bs), 0); for (auto &c : t) c = (char)r.next(); for (size_t i = 0; i < 12 && i < t.size() && r.chance(500); i++) t[i] = img[i]; img = t; break; }
    case BO_CUT: img.resize(1 + r.below(331)); break;
    case BO_HASH: hi.hash = h_other; break;
    case BO_PAGESIZE: odd_had = false; flags = O_RDWR | O_CREAT | (acc ? O_TRUNC : 0); badsize = r.chance(500) ? (int)r.range(1, 256) : (int)r.range((1 << 20) + 1, 1 << 30); hi.bsize = (unsigned)badsize; break;
    case BO_VERSION: case BO_MAGIC: {
      if (!known) { odd_had = false; return; }
      static const unsigned vs[] = {0, 1, 4, 7, 8, 60, 0x60000000u, 0xffffffffu, 0x7fffffffu};
      if (v == BO_VERSION) put32(img, 4, vs[r.below(9)]); else put32(img, 0, be32(img, 0) ^ (1u << r.below(32)));
      put32(img, 328, crc32_of(img.substr(0, 328))); break;
    }
    case BO_TEXT: img.clear(); while (img.size() < 2000) img += "This is not a database.\n"; break;
    default: return;
  }
  if (odd_had) { fs_set_content(odd_path, img); odd_hash = fs_hash(odd_path); }
  int fds = fs_open_count(); u64 blocks = live_blocks, bytes = live_bytes;
  set_limit(op_budget(m, bs, 0) + 400000000ull);
  const char *path = v == BO_NULL ? nullptr : odd_path;
  FFDB_DB *db = nullptr; int rc = 0;
  trace("badopen variant %d access %d api %d", v, acc, api);
  if (api) rc = bo_xopen(api, bs, badsize, path, flags);
  else { LIB_CALL(db = ffdb_dbopen(path, flags, 0664, &hi)); rc = db ? 0 : -1; }
  R->stat["bad_opens"]++;
  if (rc == 0) { violate("bad-open", "opening what is no proper database (variant %d, access %d) succeeded", v, acc); return; }
  bo_check(o); if (R->violated) return;
  if (fs_open_count() != fds) violate("fd-leak", "a refused open (variant %d) left a descriptor", v);
  else if (live_blocks != blocks) violate("memory-leak", "a refused open (variant %d) left %lld allocations (%lld bytes)", v, (long long)(live_blocks - blocks), (long long)(live_bytes - bytes));
}
// what page rearrangement saves: a copy of a database closed without it is opened with it and closed.  The pages of
// buckets not in use yet are a gap of empty pages, which the pages after it fill.
static void do_saved(const Op &o) {
  int f = (int)o.a[0], bs = bsize_of(f);
  FileModel &m = W->fm[f];
  if (!m.exists || m.weak || m.gone || m.corrupt || m.moved || W->faulty || !W->p.faults.empty() || fpar(W->p, f, "nb", 1) != 1 || !fs_exists(fpath(f))) return;
  for (auto &q : W->sl) if (q.db || q.x) return;
  std::string img = fs_content(fpath(f));
  size_t n = img.size() / (size_t)bs, gap = 0, after = 0;
  for (size_t i = 1; i < n;) {
    size_t j = i; while (j < n && img.find_first_not_of('\0', j * (size_t)bs) >= (j + 1) * (size_t)bs) j++;
    if (j - i > gap) { gap = j - i; after = n - j; }
    i = j + 1;
  }
  fs_unlink(odd_path); fs_set_content(odd_path, img);
  FFDB_HASHINFO hi; memset(&hi, 0, sizeof hi);
  hi.bsize = (unsigned)bs; hi.nbuckets = 1; hi.cachesize = 20ul * (unsigned long)bs; hi.hash = hashes[fpar(W->p, f, "hash", 0)]; hi.cmp = fpar(W->p, f, "cmp", 0) ? cmp_user : nullptr; hi.rearrangepages = 1;
  set_limit(op_budget(m, bs, 0) + 400000000ull);
  FFDB_DB *db = nullptr; int rc = 0;
  LIB_CALL(db = ffdb_dbopen(odd_path, O_RDWR, 0664, &hi));
  if (!db) { violate("open-failed", "a copy of a database cannot be opened with page rearrangement"); return; }
  LIB_CALL(rc = db->close(db));
  if (rc) { violate("close-failed", "closing with page rearrangement returned %d without cause", rc); return; }
  u64 now = fs_size(odd_path), save = std::min(gap, after);
  fs_unlink(odd_path);
  R->stat["rearrangements_measured"]++; if (save >= 2) R->stat["rearrangements_with_a_gap"]++;
  trace("saved f%d %zu pages, gap %zu, then %zu: %llu bytes after", f, n, gap, after, (unsigned long long)now);
  if (now > img.size()) violate("rearranged-larger", "page rearrangement made the file larger: %zu bytes before, %llu after", img.size(), (unsigned long long)now);
  else if (save >= 2 && now > img.size() - save / 2 * (u64)bs) violate("rearranged-no-smaller", "%zu empty pages with %zu pages after them, and page rearrangement left %llu of %zu bytes", gap, after, (unsigned long long)now, img.size());
}

// ---------------------------------------------------------------- threads
// what threads did on shared keys, judged together afterwards: some order of the calls, in which each call lies
// between its beginning and its end, must explain every result
struct Hist { int kid; bool put; Val v; int flag, rc; std::string got; u64 inv, ret; };
static std::vector<Hist> hist; static u64 hclock; static int hist_file;
static void do_lin(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  FileModel &m = W->fm[s.file]; hist_file = s.file;
  Hist h; h.put = o.k == K_PUT; h.flag = h.put ? (int)o.a[4] : 0; h.v.vid = h.put ? o.a[2] : 0; h.v.len = h.put ? o.a[3] : 0; h.rc = 0;
  std::string kb = key_bytes(W->p, s.file, (int)o.a[1]), vb = h.put ? val_bytes(h.v) : "";
  auto ki = m.kid_of.find(kb);
  if (ki == m.kid_of.end()) { h.kid = (int)o.a[1]; if (h.put) m.kid_of[kb] = h.kid; } else h.kid = ki->second;
  char *kp = (char *)malloc(kb.size() ? kb.size() : 1), *vp = nullptr; memcpy(kp, kb.data(), kb.size());
  FFDB_DBT k, d; k.data = kp; k.size = (long)kb.size(); d.data = nullptr; d.size = 0;
  if (h.put) { vp = (char *)malloc(vb.size() ? vb.size() : 1); memcpy(vp, vb.data(), vb.size()); d.data = vp; d.size = (long)vb.size(); m.synced = 0; }
  else if (o.a[2]) { i64 big = 1 + o.a[1] % 5; for (auto &q : W->p.ops) if (q.k == K_PUT) big = std::max(big, q.a[3]); vp = (char *)malloc((size_t)big); d.data = vp; d.size = big; }
  size_t at = hist.size(); h.inv = hclock++; h.ret = ~0ull; hist.push_back(h);
  int rc = 0;
  if (h.put) LIB_CALL(rc = s.db->put(s.db, &k, &d, (unsigned)h.flag)); else LIB_CALL(rc = s.db->get(s.db, &k, &d, 0));
  Hist &g = hist[at]; g.rc = rc; g.ret = hclock++;
  if (memcmp(kp, kb.data(), kb.size()) || (h.put && memcmp(vp, vb.data(), vb.size()))) violate("caller-buffer", "a call changed the caller's key or data buffer");
  if (!h.put && rc == 0 && d.size > 0 && d.data) g.got.assign((char *)d.data, (size_t)d.size);
  if (!h.put && d.data && d.data != vp) free(d.data);
  free(kp); free(vp);
  trace("lin %s k%d v%lld/%lld flag=%d -> %d %zu", h.put ? "put" : "get", h.kid, (long long)h.v.vid, (long long)h.v.len, h.flag, rc, g.got.size());
  R->stat[h.put ? "lin_puts" : "lin_gets"]++;
}
struct LinState { bool present; Val v; bool operator<(const LinState &o) const { return present != o.present ? present < o.present : v < o.v; } };
static void lin_search(const std::vector<const Hist *> &h, std::vector<char> &done, size_t left, LinState st, std::set<std::pair<std::vector<char>, LinState>> &seen, std::set<LinState> &fin) {
  if (!left) { fin.insert(st); return; }
  if (!seen.insert({done, st}).second || seen.size() > 200000) return;
  u64 minret = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!done[i]) minret = std::min(minret, h[i]->ret);
  for (size_t i = 0; i < h.size(); i++) {
    if (done[i] || h[i]->inv > minret) continue;
    const Hist &c = *h[i]; LinState n = st;
    if (c.put) {
      bool refuse = st.present && (c.flag == FFDB_NOOVERWRITE || c.v.len > st.v.len);
      if (refuse != (c.rc != 0)) continue;
      if (!refuse) { n.present = true; n.v = c.v; }
    } else {
      if ((c.rc != 0) == st.present) continue;
      if (st.present && val_bytes(st.v) != c.got) continue;
    }
    done[i] = 1; lin_search(h, done, left - 1, n, seen, fin); done[i] = 0;
  }
}
static void lin_judge() {
  if (hist.empty()) return;
  FileModel &m = W->fm[hist_file];
  std::map<int, std::vector<const Hist *>> by;
  for (auto &h : hist) {
    if (h.ret == ~0ull) return;            // the process ended in the middle: judged elsewhere
    if (!h.put && h.rc != 0 && h.rc != 1) { violate("spurious-error", "get of key %d returned %d without cause", h.kid, h.rc); return; }
    by[h.kid].push_back(&h);
  }
  for (auto &e : by) {
    std::set<std::pair<std::vector<char>, LinState>> seen; std::set<LinState> fin; std::vector<char> done(e.second.size(), 0);
    auto it = m.live.find(e.first);
    if (it == m.live.end()) lin_search(e.second, done, e.second.size(), LinState{false, Val()}, seen, fin);
    else { for (auto &v : it->second.poss) lin_search(e.second, done, e.second.size(), LinState{true, v}, seen, fin); if (it->second.absent) lin_search(e.second, done, e.second.size(), LinState{false, Val()}, seen, fin); }
    if (fin.empty() && seen.size() <= 200000) {
      std::string t; char b[120];
      for (auto *h : e.second) { snprintf(b, sizeof b, " [%llu-%llu %s%s v%lld/%lld -> %d %zu]", (unsigned long long)h->inv, (unsigned long long)h->ret, h->put ? "put" : "get", h->flag ? "-new" : "", (long long)h->v.vid, (long long)h->v.len, h->rc, h->got.size()); t += b; if (t.size() > 900) break; }
      violate("not-serial", "no order of the calls of the threads explains their results for key %d:%s", e.first, t.c_str()); return;
    }
    KeyState st; bool pres = false;
    for (auto &f : fin) if (f.present) { st.poss.push_back(f.v); pres = true; } else st.absent = true;
    for (auto *h : e.second) if (h->put && h->rc == 0) m.ever[e.first].insert(h->v);
    if (pres) m.live[e.first] = st;
    R->stat["lin_keys"]++;
  }
  hist.clear();
}
struct MtBody : ThreadBody {
  std::vector<const Op *> ops;
  void run(int tid) override;
};
static void do_sync(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.db) return;
  FileModel &m = W->fm[s.file];
  int rc = 0; u64 f0 = total_fired();
  set_limit(op_budget(m, bsize_of(s.file), 0) * 4 + 100000000ull);
  LIB_CALL(rc = s.db->sync(s.db, 0));
  bool fired = total_fired() != f0;
  trace("sync f%d -> %d", s.file, rc);
  if (rc != 0) {
    if (!fired && !s.poisoned && !m.werr && !faulty_for(s.file) && !s.ro && !m.weak) violate("sync-failed", "sync returned %d without cause", rc);
    R->stat["sync_reported"]++;
    return;
  }
  R->stat["syncs_ok"]++;
  if (!s.ro) m.synced = 2;
}
#include "engine_x.inc"
#include "golden.inc"
void exec_op(const Op &o) {
  if (x_exec(o)) return;
  switch (o.k) {
    case K_OPEN: do_open_op(o); break;
    case K_CLOSE: do_close_op(o); break;
    case K_PUT: do_put_op(o); break;
    case K_GET: do_get((int)o.a[0], (int)o.a[1], (int)o.a[2], "get"); break;
    case K_SYNC: do_sync(o); break;
    case K_SCAN: do_scan(o); break;
    case K_CUR_OPEN: do_cur_open(o); break;
    case K_CUR_GET: do_cur_get(o); break;
    case K_CUR_CLOSE: cur_close((int)o.a[0]); break;
    case K_VERIFY: do_verify((int)o.a[0]); break;
    case K_SET_CFG: case K_GET_CFG: case K_SET_ALL: case K_GET_ALL: do_cfg(o); break;
    case K_SET_UI: case K_GET_UI: do_ui(o); break;
    case K_CORRUPT: do_corrupt(o); break;
    case K_LOAD: do_load(o); break;
    case K_BADOPEN: do_badopen(o); break;
    case K_SAVED: do_saved(o); break;
    case K_HOSTILE: do_hostile(o); break;
    case K_QUOTA: if (o.a[1]) fs_set_quota(0); else fs_set_quota(fs_used() + 1 + (u64)o.a[0] * bsize_of(0)); trace("quota %lld", (long long)o.a[0]); break;
    case K_UNLINK: fs_unlink(fpath((int)o.a[0])); W->fm[o.a[0]] = FileModel(); break;
  }
}
void MtBody::run(int tid) {
  for (auto o : ops) { if (R->violated) return; trace("t%d op %d", tid, o->id); if ((o->k == K_PUT || o->k == K_GET) && W->p.get("lin", 0)) do_lin(*o); else exec_op(*o); R->progress++; }
}
static void run_mt(const std::vector<Op> &ops) {
  int n = 0; for (auto &o : ops) n = std::max(n, o.t);
  if (!n) return;
  std::vector<MtBody> b(n); std::vector<ThreadBody *> bp;
  for (auto &o : ops) if (o.t > 0) b[o.t - 1].ops.push_back(&o);
  for (auto &x : b) bp.push_back(&x);
  R->steps = 0;
  hist.clear(); hclock = 0;
  sched_run(bp);
  if (R->death == D_NONE && !R->violated) lin_judge();
}

// a death of the simulated process that nothing excuses
static void judge_death(const Op &o) {
  bool injected = R->death == D_KILL || R->death == D_POWER;
  if (injected) {
    R->stat[R->death == D_POWER ? "power_losses" : "kills"]++;
    after_crash(R->death == D_POWER, R->stat["power_seed"]);
    return;
  }
  bool weak = false, corrupt = false;
  for (auto &m : W->fm) { weak |= m.weak; corrupt |= m.corrupt; }
  // writes may fail at a point of no return; a failing read is always reported to the caller
  bool strict = W->p.prop == "P08" || (W->p.get("strict_reads") && !x_may_stop(o));
  if (o.k == K_XODD && x_odd_stop && (R->death == D_EXIT || R->death == D_ABORT)) { fs_unlink(odd_path); R->stat["stopped_itself"]++; after_crash(false, 0); return; }
  if (o.k == K_BADOPEN && R->death == D_EXIT && bo_may_stop(o)) { bo_check(o); if (R->violated) return; R->stat["stopped_itself"]++; after_crash(false, 0); return; }
  bool excuse = weak || corrupt || x_bad_merge(o) || x_bad_row(o) || (!strict && (W->faulty || total_fired() != W->op_f0));
  if (R->death == D_HANG || R->death == D_DEADLOCK) {
    // a detected stop is fine after damage, an endless loop is not
    violate(R->death == D_HANG ? "hang" : "deadlock", "%s during %s: %s", death_names[R->death], k_names[o.k], R->death_msg.c_str());
    return;
  }
  if (!excuse) { violate("died", "library stopped the process during %s: %s", k_names[o.k], R->death_msg.c_str()); return; }
  R->stat["stopped_itself"]++;
  after_crash(false, 0);
}

// with nothing open, nothing of the library is left in the process
static void check_leaks(const Op &o) {
  for (auto &s : W->sl) if (s.db || s.x) return;
  for (auto &c : W->cu) if (c.c) return;
  if (fs_open_count()) violate("fd-leak", "%d file descriptors are open although every database is closed (after %s)", fs_open_count(), k_names[o.k]);
  else if (live_blocks) violate("memory-leak", "%llu allocations (%llu bytes) are left although every database is closed (after %s)", (unsigned long long)live_blocks, (unsigned long long)live_bytes, k_names[o.k]);
  else if (live_news) violate("memory-leak", "%llu objects of the C++ classes are left although every store is closed and destroyed (after %s)", (unsigned long long)live_news, k_names[o.k]);
  else if (fs_umask() != 022) violate("umask", "the process's file creation mask is %03o, it was 022 before the library was used (after %s)", fs_umask(), k_names[o.k]);
  else R->stat["clean_states"]++;
}
// the memory of a handle is its configured cache and a few pages more
static u64 mem_base[4]; static bool mem_known[4];
static void check_memory(const Op &o, u64 before) {
  u64 bound = 0; int open = 0;
  for (auto &c : W->cu) if (c.c) return;
  for (int i = 0; i < 4; i++) {
    Slot &s = W->sl[i];
    if (s.x) return;
    if (!s.db) { mem_known[i] = false; continue; }
    if (!mem_known[i]) { if (o.k != K_OPEN || o.a[0] != i) return; mem_known[i] = true; mem_base[i] = live_bytes - before; }
    if (!s.cache) return;
    open++;
    bound += mem_base[i] + (u64)s.cache * (u64)(bsize_of(s.file) + 200);
  }
  if (!open) return;
  u64 slack = 0; for (auto &q : W->sl) if (q.db) slack += 12ull * (u64)(bsize_of(q.file) + 200);
  if (live_bytes > bound + slack) { violate("memory-growth", "%llu bytes of the library are live after %s, the configured caches and everything allocated by open make %llu", (unsigned long long)live_bytes, k_names[o.k], (unsigned long long)bound); return; }
  if (o.k == K_GET || o.k == K_PUT || o.k == K_SCAN || o.k == K_VERIFY) {
    i64 big = o.k == K_PUT ? o.a[3] : 0; for (auto &m : W->fm) for (auto &k : m.live) for (auto &v : k.second.poss) if (v.len > big) big = v.len;
    if (peak_bytes > bound + slack + 4 * (u64)big) { violate("memory-growth", "%llu bytes of the library were live during %s, the configured caches and everything allocated by open make %llu, the largest value has %lld", (unsigned long long)peak_bytes, k_names[o.k], (unsigned long long)bound, (long long)big); return; }
  }
  R->stat["memory_checks"]++;
}
void engine_run(Plan &p) {
  memset(mem_known, 0, sizeof mem_known);
  World w(p); W = &w; rows.clear(); if (x_reset) x_reset(); news_tracked = p.get("leak_check", 0);
  volatile size_t i = 0; volatile u64 mem0 = 0;
  for (i = 0; i < p.ops.size() && !R->violated; i++) {
    const Op &o = p.ops[i];
    if (o.t > 0) continue;
    R->cur_op = o.id;
    memset(R->calls, 0, sizeof R->calls);
    R->nops++;
    w.op_f0 = total_fired();
    R->death = D_NONE;
    R->death_armed = true;
    mem0 = peak_bytes = live_bytes;
    if (setjmp(R->death_jmp) == 0) {
      if (o.k == K_MTREAD) {
        std::vector<Op> t; for (size_t j = i + 1; j < p.ops.size() && p.ops[j].t > 0; j++) t.push_back(p.ops[j]);
        R->step_limit = (u64)p.get("mt_budget", 30000000);
        run_mt(t);
        R->death_armed = false;
        if (R->death != D_NONE) judge_death(o);
      } else if (o.k == K_CRASH) {
        R->stat[o.a[0] ? "power_losses" : "kills"]++;
        R->fired[o.a[0] ? A_POWER_AFTER : A_KILL_AFTER]++;
        trace("crash power=%lld", (long long)o.a[0]);
        after_crash(o.a[0] != 0, (u64)o.a[1]);
      } else exec_op(o);
      R->death_armed = false;
    } else {
      judge_death(p.ops[i]);
    }
    for (auto &m : w.fm) if (m.werr) w.faulty = true;
    if (!R->violated && p.get("leak_check", 0)) check_leaks(o);
    if (!R->violated && p.get("mem_check", 0)) check_memory(o, mem0);
  }
  if (!golden_out.empty()) { int kind = 0; for (auto &o : p.ops) if (o.k == K_XOPEN && o.a[1] == 0) kind = (int)o.a[5]; golden_write(p, kind); }
  W = nullptr;
}
