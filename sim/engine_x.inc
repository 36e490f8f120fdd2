// The C++ stores: typed single-configuration stores, ensembles, several files at once, the merger.
// Part of engine.cpp: the same file models judge what the classes return.
XStore *x_make(int kind, const XOpt &o) __attribute__((weak));
std::string x_ser(int data, const std::string &s) __attribute__((weak));
void x_reset() __attribute__((weak));

static bool x_have() { return x_make != nullptr; }
static bool x_str(int kind) { return kind != X_SINGLE_B && kind != X_ENS_B; }     // keys and data carry the 4 byte header of the library's string classes
static bool x_ens(int kind) { return kind == X_ENS_S || kind == X_ENS_B || kind == X_EMULTI; }
static int x_maxk(int f, int kind) { return max_key(bsize_of(f)) - (x_str(kind) ? 4 : 0); }
static std::string x_key(int f, int kind, int kid) {
  std::string k = key_bytes(W->p, f, kid);
  if (kid < 100000000 && (int)k.size() > x_maxk(f, kind)) k.resize((size_t)x_maxk(f, kind));
  return k;
}
static i64 elen_of(int f) { return fpar(W->p, f, "elen", 8); }
static int ncfg_of(int f) { int n = fpar(W->p, f, "ncfg", 1); return n > 0 ? n : 1; }
static SV x_split(int kind, const Val &v) {
  SV r; std::string b = val_bytes(v);
  if (!x_ens(kind)) { r.push_back(b); return r; }
  const Row &w = rows[(size_t)(v.vid - ENS_BASE)];
  for (size_t i = 0; i < w.evid.size(); i++) r.push_back(b.substr(i * (size_t)w.elen, (size_t)w.elen));
  return r;
}
static Val x_row(const Row &r) { rows.push_back(r); Val v; v.vid = ENS_BASE + (i64)rows.size() - 1; v.len = r.elen * (i64)r.evid.size(); return v; }
static Val x_val(int f, int kind, i64 vid, i64 len) {
  if (!x_ens(kind)) { Val v; v.vid = vid; v.len = len; return v; }
  Row r; r.elen = elen_of(f); for (int i = 0; i < ncfg_of(f); i++) r.evid.push_back(vid * 1000 + i + 1);
  return x_row(r);
}
static int x_cfgnum(int f, int i) { return 1000 * (f + 1) + 7 * i; }
static Cfg x_cfg0(int f, int i, bool names) { Cfg c; c.config = x_cfgnum(f, i); c.index = i; if (names && i % 3 != 1) { c.fname = "/data/config_" + std::to_string(i); if (i % 5 == 0) c.fname.append(40, 'n'); } return c; }
static u64 x_budget(const FileModel &m, int f, u64 n) { return op_budget(m, bsize_of(f), n) * 6 + 600000000ull; }
static void x_join(const SV &v, std::string &out) { for (auto &e : v) out += e; }

static void x_closed(Slot &s, bool fired, int rc, bool rewritten = false) {      // what a close means for the model; the store is closed already
  FileModel &m = W->fm[s.file];
  if (s.ro) {
    if (!rewritten && fs_hash(fpath(s.file)) != s.hash0) violate("ro-modified", "database %d changed while open read-only", s.file);
    if (rc != 0 && !fired && !W->faulty && !m.corrupt) violate("close-failed", "closing a read-only database failed: %d", rc);
    return;
  }
  if (rc != 0) {
    if (!fired && !m.werr && !s.poisoned && !W->faulty && !m.weak) { violate("close-failed", "close returned %d without cause", rc); return; }
    m.weak = true; m.gone = true; R->stat["close_reported"]++;
    return;
  }
  m.wsess_dirty = false; if (m.synced < 1) m.synced = 1;
  R->stat["close_ok"]++;
}
int bo_xopen(int kind, int bs, int badsize, const char *path, int flags) {
  XOpt x; x.bsize = badsize ? badsize : bs; x.cache = 8u * (unsigned)bs; x.elen = 8; x.ncfg = 2;
  if (x_ens(kind)) { x.configs = {1000, 1007}; }
  XStore *st = nullptr; int rc = 0;
  LIB_CALL(st = x_make(kind, x));
  LIB_CALL(rc = st->open(path, flags, 0664));
  LIB_CALL(delete st);
  return rc;
}
static void do_xopen(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  int f = (int)o.a[1], mode = (int)o.a[2], kind = (int)o.a[5];
  FileModel &m = W->fm[f];
  bool again = o.a[4] & 2;
  if (s.db || (s.x && (!again || s.kind != kind || !s.many.empty()))) return;
  if (file_busy(f, mode == 2, &s)) return;
  if (m.unjudged && mode != 0) return;
  if ((mode == 1 || mode == 3) && (m.weak || m.gone || m.corrupt)) return;
  bool creating = mode == 0 || (mode == 3 && !fs_exists(fpath(f)));
  int bs = bsize_of(f);
  XOpt x; x.bsize = bs; x.nb = fpar(W->p, f, "nb", 1); x.hash = fpar(W->p, f, "hash", 0) % 3; x.cmp = fpar(W->p, f, "cmp", 0);
  x.cache = (unsigned)(o.a[3] * bs); if (o.a[3] == 400) x.cacheMB = 1;
  x.rearr = o.a[4] & 1; x.uilen = fpar(W->p, f, "uilen", -1); x.elen = elen_of(f);
  x.ncfg = fpar(W->p, f, "ncfg", 0);
  bool names = fpar(W->p, f, "names", 0);
  if (x_ens(kind)) {
    bool other = (o.a[4] & 4) && !creating && !m.live.empty() && !m.weak;
    if (!other || (o.a[4] & 8)) for (int i = 0; i < ncfg_of(f) + (other ? 2 : 0); i++) { x.configs.push_back(x_cfgnum(f, i)); x.names.push_back(x_cfg0(f, i, names).fname.empty() ? "N/A" : x_cfg0(f, i, names).fname); }
    if (!names) x.names.clear();
  } else if (!creating && (o.a[4] & 4)) { x.ncfg = 3; x.uilen = 21; x.bsize = 1024; x.nb = 9; }
  int flags = mode == 0 ? O_RDWR | O_CREAT | O_TRUNC : mode == 1 ? O_RDWR : mode == 2 ? O_RDONLY : O_RDWR | O_CREAT;
  XStore *st = s.x;
  bool had = st != nullptr; Slot old = s; int oldf = s.file;
  bool oldtouch = had && !s.ro && s.rearr;
  if (oldtouch) { W->fm[oldf].synced = 0; W->fm[oldf].moved = true; }
  if (had) x.rearr = s.rearr;                      // options of the object stay
  u64 f0 = total_fired();
  if (!st) {
    LIB_CALL(st = x_make(kind, x));
    if (!st) { trace("xmake failed"); if (total_fired() == f0) violate("exception", "a store could not be made"); return; }
  }
  bool existed = fs_exists(fpath(f)) && m.exists;
  bool was_empty = creating || m.live.empty();
  u64 h0 = mode == 2 ? fs_hash(fpath(f)) : 0;
  bool touches = creating || (mode != 2 && (m.moved || x.rearr)) || (mode != 2 && was_empty && x_ens(kind));
  if (touches) m.synced = 0;
  FileModel keep; bool same = had && oldf == f;
  if (creating) { m = FileModel(); m.exists = m.weak = m.gone = true; m.synced = 0; }
  R->step_limit = x_budget(m, f, 0);
  if (had) R->step_limit += x_budget(W->fm[oldf], oldf, 0);
  int rc = 0;
  s.x = nullptr;
  int perm = perms_of(f), fresh = !fs_exists(fpath(f));
  LIB_CALL(rc = st->open(fpath(f), flags, perm));
  bool fired = total_fired() != f0;
  trace("xopen f%d mode=%d kind=%d -> %d", f, mode, kind, rc);
  if (had && !(same && creating)) { x_closed(old, fired, rc == 0 ? 0 : fired ? -1 : 0, same && mode != 2); if (R->violated) return; }
  bool legal_fail = (mode == 1 || mode == 2) && !existed;
  if (rc != 0) {
    if (rc == XE_EXC && !fired && !m.weak && !m.corrupt) { violate("exception", "open of database %d threw without cause", f); return; }
    if (creating && !fired) { violate("open-refused", "creating database %d failed without cause", f); return; }
    LIB_CALL(delete st);
    if (fired || m.weak || m.gone || m.corrupt) { if (fired && mode != 2) { m.weak = m.gone = true; } return; }
    if (legal_fail) return;
    if (mode == 2 && was_empty && x_ens(kind)) return;
    violate("open-refused", "opening database %d (mode %d) failed without cause", f, mode);
    return;
  }
  if (fresh && W->p.prop == "P12" && fs_mode(fpath(f)) != perm) { violate("file-mode", "database %d was created with permissions %o, asked for were %o", f, fs_mode(fpath(f)), perm); return; }
  if (legal_fail) { violate("bad-arg", "open of a missing file succeeded"); return; }
  if (had && same) h0 = fs_hash(fpath(f));       // the first handle was closed in between
  s.x = st; s.kind = kind; s.file = f; s.ro = mode == 2; s.poisoned = fired; s.hash0 = h0; s.rearr = x.rearr; s.esz = false; s.many.clear();
  if (creating) {
    m = FileModel(); m.exists = true; m.ncfg = x_ens(kind) ? ncfg_of(f) : x.ncfg > 0 ? x.ncfg : 1; m.uimax = x.uilen >= 0 ? (unsigned)x.uilen + 1 : 4000;
    m.ui.assign(1, std::string()); m.synced = 0; if (fired) m.weak = true;
  } else if (fired && mode != 2) m.werr = true;
  if (x_ens(kind)) {
    s.empty = was_empty;
    if (was_empty && mode != 2) for (int i = 0; i < ncfg_of(f); i++) m.cfg[i].assign(1, x_cfg0(f, i, names));
  }
  if (!s.ro) { m.wsess_dirty = true; if (touches) m.moved = false; }
  if (!m.weak && !m.corrupt) {
    if ((int)st->max_cfg() != m.ncfg) violate("config-count", "number of configurations is %u, expected %d", st->max_cfg(), m.ncfg);
    else if (st->max_ui() != m.uimax) violate("uinfo-max", "maximum user info length is %u, expected %u", st->max_ui(), m.uimax);
    else if (st->name() != fpath(f)) violate("name", "the store calls itself %s", st->name().c_str());
    else if (x_ens(kind) && st->size() != m.ncfg) violate("config-count", "the ensemble has %d configurations, expected %d", st->size(), m.ncfg);
  }
}
static void do_xclose(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  XStore *st = s.x; int rc = 0; u64 f0 = total_fired();
  R->step_limit = x_budget(W->fm[s.many.empty() ? s.file : s.many[0]], s.many.empty() ? s.file : s.many[0], 0) * 2;
  if (!s.ro && s.rearr) { W->fm[s.file].synced = 0; W->fm[s.file].moved = true; }
  s.x = nullptr;
  bool destroy = o.a[1] == 1;          // the destructor closes
  if (!destroy) LIB_CALL(rc = st->close());
  else LIB_CALL(delete st);
  bool fired = total_fired() != f0;
  trace("xclose -> %d", rc);
  if (!s.many.empty()) {
    for (size_t i = 0; i < s.many.size(); i++) if (fs_hash(fpath(s.many[i])) != s.mhash[i]) violate("ro-modified", "database %d changed while open read-only", s.many[i]);
    if (rc != 0 && !fired) violate("close-failed", "closing read-only databases failed: %d", rc);
    s.many.clear();
  } else x_closed(s, fired, destroy && fired ? -1 : rc);
  if (!destroy) {
    if (!R->violated && (s.kind == X_SINGLE_S || s.kind == X_SINGLE_B || s.kind == X_SINGLE_F) && rc == 0) {      // a closed store refuses
      SV v(1, "x"), w; std::string u; int a = 0, b = 0, c = 0, d = 0, e = 0;
      LIB_CALL(a = st->put(0, "k", v); b = st->get(0, "k", w); c = st->get_ui(u); d = st->set_ui("u"); e = st->exist("k"));
      if (a == 0 || b == 0 || c == 0 || d == 0 || e) violate("closed", "a closed store accepted a call (%d %d %d %d %d)", a, b, c, d, e);
      else if (st->name() != "") violate("name", "a closed store calls itself %s", st->name().c_str());
    }
    bool none = true; for (auto &q : W->sl) if (q.db || q.x) none = false;
    if (!R->violated && none && rc == 0 && fs_open_count()) violate("fd-leak", "%d descriptors are open after close of the only store reported success", fs_open_count());
    LIB_CALL(delete st);
  }
}
static bool x_bad_row(const Op &o) { return o.k == K_PUT && o.a[5] >= 8 && R->death == D_EXIT && W->sl[o.a[0]].x && x_ens(W->sl[o.a[0]].kind); }      // a row of the wrong size may end the program
static void do_xput(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.many.empty()) return;
  FileModel &m = W->fm[s.file];
  int kid = (int)o.a[1]; std::string kb = x_key(s.file, s.kind, kid);
  auto ki = m.kid_of.find(kb);
  if (ki == m.kid_of.end()) m.kid_of[kb] = kid; else kid = ki->second;
  Val v = x_val(s.file, s.kind, o.a[2], o.a[3]);
  SV el = x_split(s.kind, v);
  bool count = x_ens(s.kind) && o.a[5] >= 8, mixed = count || (x_ens(s.kind) && o.a[5] && el.size() > 1);
  bool other = x_ens(s.kind) && o.a[5] == 7; if (other && (!s.esz || !elen_of(s.file))) return;     // a row of another element size, refused once the store has met one row
  if (other) { mixed = true; for (auto &q : el) q += "+"; } else if (count) { if (o.a[5] & 1) el.push_back(el[0]); else el.pop_back(); }
  else if (mixed) { std::string &q = el[(size_t)(o.a[5] / 2) % el.size()]; if (o.a[5] & 1 || q.empty()) q += "+"; else q.pop_back(); }
  bool too_long = (int)kb.size() > x_maxk(s.file, s.kind);
  int rc = 0, was = m.synced; u64 f0 = total_fired();
  R->step_limit = x_budget(m, s.file, (u64)v.len);
  if (!s.ro && !too_long && !mixed) { m.synced = 0; m.inflight[kid] = v; }
  LIB_CALL(rc = s.x->put((int)o.a[4], kb, el));
  m.inflight.clear();
  bool fired = total_fired() != f0;
  trace("xput f%d k%d %s -> %d", s.file, kid, valstr(v), rc);
  if (rc == XE_EXC && !(fired && sim_malloc_faults)) { violate("exception", "insert of key %d threw", kid); return; }
  if (mixed) { if (rc == 0 && !m.weak) violate("mixed-sizes", other ? "a row of another element size was accepted" : count ? "a row with another number of elements than the ensemble has was accepted" : "an ensemble whose elements differ in size was accepted"); return; }
  if (rc == 0) s.esz = true;
  put_result(s, m, kid, v, kb.size(), too_long, 0, rc, fired, was);
}
static void do_xget(Slot &s, int kid, int variant, const char *what) {
  u64 f0 = total_fired(); int rc = 0; SV got; std::string b;
  if (!s.many.empty()) {               // the first file that has the key answers
    int f = s.many[0]; std::string kb = x_key(f, s.kind, kid);
    FileModel *hit = nullptr;
    for (int g : s.many) { auto ki = W->fm[g].kid_of.find(kb); if (ki != W->fm[g].kid_of.end() && W->fm[g].live.count(ki->second)) { hit = &W->fm[g]; kid = ki->second; break; } }
    R->step_limit = x_budget(W->fm[f], f, 0) * 4;
    LIB_CALL(rc = s.x->get(variant, kb, got));
    bool fired = total_fired() != f0; x_join(got, b);
    trace("%s multi k%d -> %d %zu", what, kid, rc, b.size());
    if (rc == XE_EXC && !fired) { violate("exception", "%s of key %d threw without cause", what, kid); return; }
    R->stat["gets"]++; if (fired && rc != 0 && rc != 1) R->stat["get_fault_reported"]++;
    int r = rc == 0 ? 0 : rc == 1 ? 1 : -1;
    if (hit) observe(*hit, kid, r, b, what, fired || s.poisoned, false);
    else if (r == 0) violate("phantom", "a key that is in none of the files was found");
    else if (r < 0 && !fired && !s.poisoned) violate("spurious-error", "%s of an absent key returned an error without cause", what);
    return;
  }
  FileModel &m = W->fm[s.file];
  std::string kb = x_key(s.file, s.kind, kid); kid = expected_kid(m, kb, kid);
  R->step_limit = x_budget(m, s.file, (u64)biggest(m, kid));
  LIB_CALL(rc = s.x->get(variant, kb, got));
  bool fired = total_fired() != f0; x_join(got, b);
  trace("%s f%d k%d v%d -> %d %zu", what, s.file, kid, variant, rc, b.size());
  if (rc == XE_EXC && !fired && !m.weak && !m.corrupt) { violate("exception", "%s of key %d threw without cause", what, kid); return; }
  R->stat["gets"]++; if (fired && rc != 0 && rc != 1) R->stat["get_fault_reported"]++;
  if (rc == 0 && variant % 3 != 2) s.esz = true;
  if (rc == 0 && x_ens(s.kind) && !m.weak && (int)got.size() != m.ncfg) { violate("bad-split", "the row of key %d has %zu elements, expected %d", kid, got.size(), m.ncfg); return; }
  observe(m, kid, rc == 0 ? 0 : rc == 1 ? 1 : -1, b, what, fired || s.poisoned || m.corrupt, true);
}
static void do_xexist(const Op &o) {
  Slot &s = W->sl[o.a[0]]; int kid = (int)o.a[1], rc = 0; u64 f0 = total_fired();
  bool want = false, sure = true; std::string kb;
  std::vector<int> fs = s.many.empty() ? std::vector<int>(1, s.file) : s.many;
  kb = x_key(fs[0], s.kind, kid);
  for (int f : fs) { FileModel &m = W->fm[f]; auto ki = m.kid_of.find(kb); if (m.weak || m.corrupt) sure = false; if (ki != m.kid_of.end()) { auto i = m.live.find(ki->second); if (i != m.live.end()) { if (i->second.absent) sure = false; else want = true; } } }
  R->step_limit = x_budget(W->fm[fs[0]], fs[0], 0) * 2;
  LIB_CALL(rc = s.x->exist(kb));
  trace("xexist k%d -> %d", kid, rc);
  if (total_fired() != f0 || !sure || s.poisoned) return;
  if (rc == XE_EXC) violate("exception", "exist threw without cause");
  else if ((rc != 0) != want) violate(want ? "missing" : "phantom", "exist of key %d answered %d, expected %d", kid, rc, (int)want);
}
static void do_xscan(const Op &o) {
  Slot &s = W->sl[o.a[0]]; int variant = (int)o.a[1], rc = 0; u64 f0 = total_fired();
  if (s.kind == X_EMULTI) return;
  std::vector<int> fs = s.many.empty() ? std::vector<int>(1, s.file) : s.many;
  std::vector<XPair> out; bool data = false, one = false;
  R->step_limit = 0; for (int f : fs) R->step_limit += x_budget(W->fm[f], f, 0) * 2;
  LIB_CALL(rc = s.x->scan(variant, out, data, one));
  bool fired = total_fired() != f0, weak = false, corrupt = false; for (int f : fs) { weak |= W->fm[f].weak; corrupt |= W->fm[f].corrupt; }
  bool excuse = fired || s.poisoned || weak || corrupt;
  trace("xscan v%d -> %d %zu", variant, rc, out.size());
  R->stat["scans"]++;
  if (rc == -2) { violate("bad-split", "a scan returned different numbers of keys and data"); return; }
  if (rc != 0) { if (!excuse) violate("exception", "a scan failed without cause"); else R->stat["scan_fault_reported"]++; return; }
  std::map<std::string, int> seen; std::map<std::string, int> want;
  for (int f : fs) for (auto &k : W->fm[f].kid_of) { auto i = W->fm[f].live.find(k.second); if (i != W->fm[f].live.end() && !i->second.absent) want[k.first]++; }
  for (auto &p : out) {
    seen[p.key]++;
    FileModel *m = nullptr; int kid = 0;
    for (int f : fs) { auto ki = W->fm[f].kid_of.find(p.key); if (ki != W->fm[f].kid_of.end() && (W->fm[f].live.count(ki->second) || W->fm[f].weak)) { m = &W->fm[f]; kid = ki->second; break; } }
    if (!m) { violate("phantom", "scan produced a key of %zu bytes that was never stored", p.key.size()); return; }
    if (seen[p.key] > 1 && seen[p.key] > want[p.key] && !weak) { violate("duplicate", "scan produced key %d %d times", kid, seen[p.key]); return; }
    if (data) {
      std::string b; x_join(p.val, b);
      if (x_ens(s.kind) && !weak && (int)p.val.size() != m->ncfg) { violate("bad-split", "scan: the row of key %d has %zu elements, expected %d", kid, p.val.size(), m->ncfg); return; }
      observe(*m, kid, 0, b, "scan", false, false); if (R->violated) return;
    }
  }
  if (weak) return;
  if (one) { if (out.size() != (want.empty() ? 0u : 1u)) violate("scan-missed", "someKeyAndData returned %zu pairs of %zu", out.size(), want.size()); return; }
  for (auto &w : want) if (seen[w.first] < w.second) { violate("scan-missed", "scan (variant %d) returned %zu of %zu keys and missed key %d", variant, out.size(), want.size(), W->fm[fs[0]].kid_of[w.first]); return; }
}
static void do_xverify(const Op &o) {
  Slot &s = W->sl[o.a[0]]; std::vector<int> ks; int i = 0;
  std::vector<int> fs = s.many.empty() ? std::vector<int>(1, s.file) : s.many;
  for (int f : fs) { FileModel &m = W->fm[f]; if (m.weak) for (auto &e : m.ever) ks.push_back(e.first); else for (auto &e : m.live) ks.push_back(e.first); }
  for (int j = 0; j < 3; j++) ks.push_back(90000000 + j);
  for (int k : ks) { do_xget(s, k, i++, "verify"); if (R->violated || !s.x) return; }
}
static void do_xui(const Op &o) {
  Slot &s = W->sl[o.a[0]]; FileModel &m = W->fm[s.many.empty() ? s.file : s.many[0]];
  u64 f0 = total_fired(); int rc = 0; R->step_limit = x_budget(m, s.many.empty() ? s.file : s.many[0], 0);
  if (o.k == K_SET_UI) {
    if (!s.many.empty()) return;
    Val v; v.vid = o.a[1]; v.len = o.a[2]; std::string b = val_bytes(v);
    if (!s.ro && b.size() <= m.uimax) m.synced = 0;
    LIB_CALL(rc = s.x->set_ui(b));
    bool excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
    trace("xsetui %zu -> %d", b.size(), rc);
    if (rc == 0) {
      if (b.size() > m.uimax && !m.weak) { violate("uinfo-accepted", "user info of %zu bytes accepted, limit %u", b.size(), m.uimax); return; }
      if (s.ro) { violate("ro-set", "information was changed through a read-only handle"); return; }
      m.ui.assign(1, b);
    } else if (b.size() <= m.uimax && !s.ro) {
      if (!excuse) { violate("uinfo-refused", "user info of %zu bytes refused, limit %u", b.size(), m.uimax); return; }
      m.ui.push_back(b); m.werr = true;
    }
    return;
  }
  std::string g("old contents");
  LIB_CALL(rc = s.x->get_ui(g));
  bool excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
  trace("xgetui -> %d %zu", rc, rc == 0 ? g.size() : 0);
  if (rc == 0 && !m.weak) { bool ok = false; for (auto &u : m.ui) ok |= u == g; if (!ok) violate("uinfo-wrong", "user data read back as %zu bytes that are not what was stored (%zu bytes)", g.size(), m.ui.empty() ? 0 : m.ui[0].size()); }
  else if (rc != 0 && !excuse) violate("uinfo-refused", "reading user data failed without cause");
}
static Cfg x_from(const XCfg &x) { Cfg c; c.config = x.config; c.index = x.index; c.inserted = x.inserted; c.type = x.type; c.mtime = x.mtime; c.fname = x.url; return c; }
static void do_xcfg(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.many.empty() || !x_ens(s.kind)) return;
  FileModel &m = W->fm[s.file]; u64 f0 = total_fired(); int rc = 0; R->step_limit = x_budget(m, s.file, 0) + (u64)m.ncfg * 40000;
  int idx = (int)o.a[1]; bool in = idx >= 0 && idx < m.ncfg && !m.cfg.empty(); bool excuse;
  if (o.k == K_SET_CFG) {
    Cfg c = mk_cfg(o.a[2], idx); if (in) c.config = m.cfg[idx].back().config;
    bool legal = in && !s.ro;
    if (o.a[3]) { c.config = -5 - (int)(o.a[3] & 7); legal = false; }
    XCfg x; x.config = c.config; x.index = c.index; x.inserted = c.inserted; x.type = c.type; x.mtime = c.mtime; x.url = c.fname;
    if (legal) m.synced = 0;
    LIB_CALL(rc = s.x->set_cfg(x));
    excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
    trace("xsetcfg %d -> %d", idx, rc);
    if (rc == 0) {
      if (s.ro) { violate("ro-set", "information was changed through a read-only handle"); return; }
      if (!legal && !m.weak && !m.corrupt) { violate("config-accepted", "setConfigInfo accepted index %d number %d, which no entry has", idx, c.config); return; }
      if (legal) m.cfg[idx].assign(1, c);
    } else if (legal) {
      if (!excuse && m.cfg[idx].size() == 1) { violate("config-refused", "setConfigInfo(%d of %d) failed without cause", idx, m.ncfg); return; }
      m.cfg[idx].push_back(c); if (total_fired() != f0) m.werr = true;
    }
  } else if (o.k == K_GET_CFG) {
    unsigned num = in ? (unsigned)m.cfg[idx].back().config : (unsigned)-3; if (o.a[3]) num = (unsigned)(-5 - (int)(o.a[3] & 7));
    XCfg x; LIB_CALL(rc = s.x->get_cfg(num, x)); Cfg g = x_from(x);
    excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
    trace("xgetcfg %d -> %d", idx, rc);
    if (m.cfg.empty() || m.weak) return;
    if (rc == 0) { if (!in || o.a[3]) { violate("config-accepted", "getConfigInfo found configuration number %d, which was never stored", (int)num); return; } bool ok = false; for (auto &e : m.cfg) ok |= cfg_ok(m, e.first, g); if (!ok || g.config != (int)num) violate("config-wrong", "configuration %d read back as config=%d index=%d inserted=%d type=%d mtime=%d name=%zu bytes", (int)num, g.config, g.index, g.inserted, g.type, g.mtime, g.fname.size()); }
    else if (in && !o.a[3] && !excuse && m.cfg[idx].size() == 1) violate("config-refused", "getConfigInfo(%d) failed without cause", (int)num);
  } else if (o.k == K_GET_ALL) {
    std::vector<XCfg> v; LIB_CALL(rc = s.x->get_all(v));
    excuse = total_fired() != f0 || s.poisoned || m.weak || m.corrupt;
    trace("xgetall -> %d %zu", rc, v.size());
    if (m.weak || m.cfg.empty()) return;
    if (rc == 0) {
      if ((int)v.size() != m.ncfg) { violate("config-count", "getAllConfigInfo returned %zu entries of %d", v.size(), m.ncfg); return; }
      for (int i = 0; i < m.ncfg; i++) if (!cfg_ok(m, i, x_from(v[i]))) { Cfg g = x_from(v[i]); violate("config-wrong", "configuration %d of %d read back wrong (config=%d index=%d inserted=%d type=%d mtime=%d name=%zu bytes)", i, m.ncfg, g.config, g.index, g.inserted, g.type, g.mtime, g.fname.size()); return; }
      R->stat["cfg_getall"]++;
    } else if (!excuse) violate("config-refused", "getAllConfigInfo failed without cause");
  }
}
static void do_xupdate(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.many.empty() || !x_ens(s.kind)) return;
  FileModel &m = W->fm[s.file]; int kid = (int)o.a[1], idx = (int)o.a[3]; std::string kb = x_key(s.file, s.kind, kid);
  auto ki = m.kid_of.find(kb); if (ki == m.kid_of.end()) m.kid_of[kb] = kid; else kid = ki->second;
  auto it = m.live.find(kid); bool have = it != m.live.end();
  if ((int)kb.size() > x_maxk(s.file, s.kind) || m.weak) return;
  if (s.empty && (have || s.kind != X_ENS_B)) return;        // the first update of a key of an empty store inserts a row of defaults
  if (have && (it->second.poss.size() != 1 || it->second.absent)) return;
  bool bad = idx < 0 || idx >= m.ncfg || o.a[4] != 0;
  Val ev; ev.vid = o.a[2] * 1000 + 999; ev.len = elen_of(s.file) + o.a[4]; if (ev.len < 0) ev.len = 1;
  if (s.empty && o.a[4]) return;
  Val v; bool ok = !bad && !s.ro && (have || s.empty);
  if (ok) { Row r; r.elen = elen_of(s.file); if (have) r = rows[(size_t)(it->second.poss[0].vid - ENS_BASE)]; else r.evid.assign((size_t)m.ncfg, 0); r.evid[(size_t)idx] = ev.vid; v = x_row(r); }
  int rc = 0, was = m.synced; u64 f0 = total_fired(); R->step_limit = x_budget(m, s.file, (u64)(elen_of(s.file) * m.ncfg));
  if (ok) { m.synced = 0; m.inflight[kid] = v; }
  std::string eb = val_bytes(ev);
  LIB_CALL(rc = s.x->update(kb, eb, x_cfgnum(s.file, idx), idx));
  m.inflight.clear();
  bool fired = total_fired() != f0;
  trace("xupdate k%d index %d -> %d", kid, idx, rc);
  if (!ok) {
    if (rc == 0) violate(s.ro ? "ro-put" : "update-accepted", "update of key %d index %d of %d (%s, element of %lld bytes, expected %lld) was accepted", kid, idx, m.ncfg, have ? "present" : "absent", (long long)ev.len, (long long)elen_of(s.file));
    return;
  }
  R->stat["updates"]++; if (rc == 0) s.esz = true;
  put_result(s, m, kid, v, kb.size(), false, 0, rc, fired, was);
}
static void do_xopenm(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (s.db || s.x) return;
  std::vector<int> fs; SV names; int kind = (int)o.a[4];
  for (int i = 1; i <= 3; i++) if (o.a[i] >= 0) { int f = (int)o.a[i]; if (file_busy(f, true, nullptr)) return; fs.push_back(f); names.push_back(fpath(f)); }
  if (fs.empty()) return;
  bool all = true, weak = false; for (int f : fs) { all &= fs_exists(fpath(f)); weak |= W->fm[f].unjudged || W->fm[f].weak || W->fm[f].gone || W->fm[f].corrupt; if (kind == X_EMULTI && W->fm[f].live.empty()) all = false; }
  for (int f : fs) if (weak || (fs_exists(fpath(f)) && !W->fm[f].exists)) return;
  XOpt x; XStore *st = nullptr; LIB_CALL(st = x_make(kind, x)); if (!st) return;
  int rc = 0; u64 f0 = total_fired(); bool ex = false, there = true; for (int f : fs) there &= fs_exists(fpath(f));
  std::vector<u64> h; for (int f : fs) h.push_back(fs_hash(fpath(f)));
  R->step_limit = 0; for (int f : fs) R->step_limit += x_budget(W->fm[f], f, 0);
  LIB_CALL(ex = st->exists(names));
  if (ex != there && total_fired() == f0) { violate("file-exists", "fileExists answered %d, expected %d", (int)ex, (int)there); return; }
  LIB_CALL(rc = st->openm(names));
  bool fired = total_fired() != f0;
  trace("xopenm %zu files -> %d", fs.size(), rc);
  if (rc != 0) { LIB_CALL(delete st); if (all && !fired) violate("open-refused", "opening %zu databases failed without cause", fs.size()); return; }
  if (!there) { violate("bad-arg", "open of a missing file succeeded"); return; }
  s.x = st; s.kind = kind; s.file = fs[0]; s.ro = true; s.poisoned = fired; s.many = fs; s.mhash = h; s.rearr = false;
}
// The merge of the single databases firstfile, firstfile+1, ... into the open, empty ensemble.
enum { MG_BAD, MG_GOOD, MG_UNKNOWN };
static int x_sources(const Op &o, std::vector<std::string> &keys) {      // good: the merge must succeed, bad: it must be refused
  Slot &s = W->sl[o.a[0]]; int n = ncfg_of(s.file), f0 = (int)o.a[4]; i64 mask = o.a[1]; int first = -1, res = MG_GOOD;
  std::set<i64> lens; keys.clear();
  for (int i = 0; i < n; i++) if (mask >> i & 1) {
    FileModel &m = W->fm[f0 + i];
    if (m.weak || m.gone || m.corrupt || m.unjudged) return MG_UNKNOWN;
    if (!m.exists || !fs_exists(fpath(f0 + i))) { res = MG_BAD; continue; }
    if (first < 0) { first = f0 + i; for (auto &k : m.kid_of) if (m.live.count(k.second)) keys.push_back(k.first); if (keys.empty()) return MG_UNKNOWN; }
    for (auto &k : keys) {
      auto ki = m.kid_of.find(k); if (ki == m.kid_of.end()) { res = MG_BAD; continue; }
      auto li = m.live.find(ki->second); if (li == m.live.end()) { res = MG_BAD; continue; }
      if (li->second.poss.size() != 1) return MG_UNKNOWN;
      lens.insert(li->second.poss[0].len);
    }
  }
  if (first < 0) return MG_UNKNOWN;
  if (res == MG_GOOD && lens.size() > 1) return MG_BAD;
  if (res == MG_GOOD && !lens.count(elen_of(s.file))) return MG_UNKNOWN;
  return res;
}
static bool merge_ok = true;
static bool x_bad_merge(const Op &o) { return o.k == K_XMERGE && !merge_ok; }
static void do_xmerge(const Op &o) {
  Slot &s = W->sl[o.a[0]];
  if (!s.many.empty() || !x_ens(s.kind) || s.ro || !W->fm[s.file].live.empty() || W->fm[s.file].weak) return;
  FileModel &m = W->fm[s.file]; int n = ncfg_of(s.file), f0 = (int)o.a[4]; i64 mask = o.a[1];
  if (n > 4) return;
  if (s.kind != X_ENS_B) mask = (1 << n) - 1;              // a blank element cannot be read as one of the library's strings
  Op oo = o; oo.a[1] = mask;
  for (int i = 0; i < n; i++) if (file_busy(f0 + i, true, nullptr)) return;
  std::vector<std::string> keys; int src = x_sources(oo, keys); if (src == MG_UNKNOWN) return;
  bool good = src == MG_GOOD; if (!good) m.unjudged = true;       // which part arrives before the refusal is not specified
  merge_ok = good;
  std::vector<int> nums; SV names; for (int i = 0; i < n; i++) { nums.push_back(x_cfgnum(s.file, i)); names.push_back(mask >> i & 1 ? fpath(f0 + i) : std::string("N/A")); }
  std::vector<std::pair<int, Val>> rowsv;
  if (good) for (auto &k : keys) {
    Row r; r.elen = elen_of(s.file);
    for (int i = 0; i < n; i++) { if (!(mask >> i & 1)) { r.evid.push_back(0); continue; } FileModel &q = W->fm[f0 + i]; r.evid.push_back(q.live[q.kid_of[k]].poss[0].vid); }
    int kid = 0; for (int i = 0; i < n; i++) if (mask >> i & 1) { kid = W->fm[f0 + i].kid_of[k]; break; }
    auto ki = m.kid_of.find(k); if (ki == m.kid_of.end()) m.kid_of[k] = kid; else kid = ki->second;
    rowsv.push_back({kid, x_row(r)});
  }
  m.synced = 0;
  if (good) for (auto &e : rowsv) m.inflight[e.first] = e.second;
  R->step_limit = 0; for (int i = 0; i < n; i++) R->step_limit += x_budget(W->fm[f0 + i], f0 + i, 0) * (4 + keys.size()); R->step_limit += x_budget(m, s.file, 0) * 4 + keys.size() * 20000000ull;
  int rc = 0; u64 fi = total_fired(); u64 t0 = 1700000000 + R->now_us / 1000000;
  LIB_CALL(rc = s.x->merge(nums, names, (unsigned)o.a[2], o.a[3] != 0));
  u64 t1 = 1700000000 + R->now_us / 1000000;
  m.inflight.clear();
  bool fired = total_fired() != fi;
  trace("xmerge -> %d", rc);
  if (rc != 0) {
    if (good && !fired) { violate("merge-failed", "merging %zu keys of %d configurations failed without cause", keys.size(), n); return; }
    for (auto &e : rowsv) m.ever[e.first].insert(e.second);         // some rows may have arrived
    m.weak = m.gone = true; m.werr = true; return;
  }
  if (!good) { violate("merge-accepted", "a merge of incomplete or damaged databases was reported as done"); return; }
  if (fired) R->stat["merge_survived_fault"]++;
  R->stat["merges"]++;
  for (auto &e : rowsv) { KeyState k; k.poss.push_back(e.second); m.live[e.first] = k; m.ever[e.first].insert(e.second); }
  for (int i = 0; i < n; i++) if (mask >> i & 1) {
    std::vector<Cfg> p;
    for (u64 t = t0; t <= t1 && t < t0 + 200; t++) { Cfg c; c.config = nums[i]; c.index = i; c.inserted = 1; c.type = 0; c.mtime = (int)t; c.fname = names[i]; p.push_back(c); }
    m.cfg[i] = p;
  }
  if (fired) s.poisoned = true;
}
static bool x_may_stop(const Op &o) { return o.k == K_XMERGE || (o.k == K_SCAN && W->sl[o.a[0]].x && o.a[1] % 5 == 4); }

// A record whose bytes are no serialised object of the store's classes is an error, never an object.
static bool x_odd_stop;
static void do_xodd(const Op &o) {
  int kind = (int)o.a[0], variant = (int)o.a[1], n = (int)o.a[3];
  if (!x_have()) return;
  for (auto &s : W->sl) if (s.db || s.x) return;
  Rng r(mix64((u64)o.a[2], 888));
  bool multi = kind == X_MULTI || kind == X_EMULTI;
  bool ens = x_ens(kind), badkey = variant >= 5;
  int nc = ens ? (int)r.range(1, 4) : 1, elen = (int)r.range(1, 40), odd = (int)r.below((u64)n), oe = (int)r.below((u64)nc);
  auto text = [&](u64 len) { std::string t(len, 0); for (auto &c : t) c = (char)r.next(); return t; };
  const char *path = "/sim/odd"; fs_unlink(path);
  XOpt x; x.bsize = 512; x.cache = 8 * 512; x.elen = elen; x.ncfg = nc;
  x_odd_stop = false;
  SV keys, rows; std::vector<SV> vals;
  if (ens) {                                     // the ensemble creates its file with its configuration table
    for (int i = 0; i < nc; i++) x.configs.push_back(100 + i);
    XStore *st = nullptr; int rc = 0;
    LIB_CALL(st = x_make(X_ENS_S, x)); R->step_limit = 2000000000ull;
    LIB_CALL(rc = st->open(path, O_RDWR | O_CREAT | O_TRUNC, 0664));
    if (rc == 0) LIB_CALL(rc = st->close());
    LIB_CALL(delete st);
    if (rc != 0) { violate("open-refused", "creating an ensemble failed: %d", rc); return; }
  }
  FFDB_HASHINFO hi; memset(&hi, 0, sizeof hi); hi.bsize = 512; hi.nbuckets = 1; hi.cachesize = 8 * 512;
  FFDB_DB *db = nullptr; R->step_limit = 2000000000ull;
  LIB_CALL(db = ffdb_dbopen(path, ens ? O_RDWR : O_RDWR | O_CREAT | O_TRUNC, 0664, &hi));
  if (!db) { violate("open-refused", "creating a database failed"); return; }
  for (int i = 0; i < n; i++) {
    std::string k = "key" + std::to_string(i) + ":" + text(r.below(20)), kb = x_ser(0, k), vb; SV v;
    for (int e = 0; e < nc; e++) { std::string t = text(ens ? (u64)elen : r.below(60)); v.push_back(t); bool fl = kind == X_SINGLE_F; std::string b = x_ser(fl ? 2 : 1, t);
      if (fl && i != odd && r.chance(400)) { std::string q = x_ser(3, t); if (!q.empty()) { b = q; R->stat["old_vectors"]++; } }
      if (i == odd && e == oe && !badkey) switch (variant) {
        case 0: if (ens) { if (nc == 1) b.resize(r.below(4)); } else b.resize(r.below(fl ? 8 : 4)); break;                        // too short for the header
        case 1: b[r.below(2)] ^= (char)(1 << r.below(8)); break;                             // another magic number
        case 2: if (fl) { u64 q = r.below(31); b[7 - q / 8] ^= (char)(1 << (q % 8)); break; }       // another number of elements
                b[2 + r.below(2)] ^= (char)(1 << r.below(8)); break;                         // another class
        case 3: b = x_ser(0, t); break;                                                      // a key
        default: { std::string g = text(b.size()); g[0] = (char)~b[0]; b = g; }              // anything else
      }
      vb += b; }
    if (i == odd && ens && nc > 1 && variant == 0) vb.resize(vb.size() - 1 - r.below(std::min<u64>(vb.size() - 1, 3 * (u64)nc)));      // too short for its elements
    if (i == odd && badkey) { if (variant == 5) kb[r.below(4)] ^= (char)(1 << r.below(8)); else if (variant == 6) kb.resize(1 + r.below(3)); else kb = x_ser(1, k); }
    FFDB_DBT kd, vd; kd.data = (void *)kb.data(); kd.size = (long)kb.size(); vd.data = (void *)vb.data(); vd.size = (long)vb.size();
    int rc = 0; LIB_CALL(rc = db->put(db, &kd, &vd, 0));
    if (rc != 0) { violate("put-refused", "put failed: %d", rc); return; }
    keys.push_back(k); vals.push_back(v);
  }
  int rc = 0; LIB_CALL(rc = db->close(db));
  if (rc != 0) { violate("close-failed", "close failed: %d", rc); return; }
  XStore *st = nullptr; x_odd_stop = true;
  LIB_CALL(st = x_make(kind, x));
  if (multi) LIB_CALL(rc = st->openm(SV(1, path))); else LIB_CALL(rc = st->open(path, O_RDONLY, 0664));
  trace("xodd kind %d variant %d -> open %d", kind, variant, rc);
  if (rc == 0) {
    x_odd_stop = false;
    for (int i = 0; i < n; i++) for (int var = 0; var < 3; var++) {
      if (i == odd && badkey) continue;
      SV v; LIB_CALL(rc = st->get(var, keys[(size_t)i], v));
      if (i == odd) {
        if (rc == 0) violate("odd-object", "a record which is no object of the store's data class was returned as one (variant %d)", variant);
        else if (rc == 1) violate("missing", "a record which is no object of the store's data class was reported absent (variant %d)", variant);
      } else if (rc != 0) violate("spurious-error", "get of a proper record beside an improper one returned %d", rc);
      else if (rc == 0 && v != vals[(size_t)i]) violate("wrong-value", "get of a proper record beside an improper one returned something else");
      if (R->violated) return;
    }
    for (int var = 0; var < 6 && kind != X_EMULTI; var++) {
      bool data = true, one = false; std::vector<XPair> out; x_odd_stop = true;
      LIB_CALL(rc = st->scan(var, out, data, one));
      if (rc != 0) continue;
      if (one) continue;
      if (badkey || data) violate("odd-object", "a listing with an improper record (variant %d, listing %d) reported %zu of %d records and no error", variant, var, out.size(), n);
      else if ((int)out.size() != n) violate("scan-missing", "a listing of keys reported %zu of %d", out.size(), n);
      if (R->violated) return;
    }
    LIB_CALL(rc = st->close());
  }
  LIB_CALL(delete st);
  R->stat["odd_records"]++;
  fs_unlink(path);
}
static bool x_exec(const Op &o) {
  switch (o.k) {
    case K_XOPEN: do_xopen(o); return true;
    case K_XOPENM: do_xopenm(o); return true;
    case K_XODD: do_xodd(o); return true;
    case K_OPEN: return W->sl[o.a[0]].x != nullptr;
    case K_CRASH: case K_MTREAD: case K_UNLINK: case K_CORRUPT: case K_QUOTA: case K_CUR_GET: case K_CUR_CLOSE: case K_BADOPEN: return false;
  }
  if (o.a[0] < 0 || o.a[0] > 3) return false;
  Slot &s = W->sl[o.a[0]];
  bool xk = o.k >= K_XOPEN;
  if (!s.x) return xk;
  if (W->fm[s.file].unjudged && o.k != K_CLOSE) return true;
  switch (o.k) {
    case K_CLOSE: do_xclose(o); break;
    case K_PUT: do_xput(o); break;
    case K_GET: do_xget(s, (int)o.a[1], (int)o.a[2], "get"); break;
    case K_SCAN: do_xscan(o); break;
    case K_VERIFY: do_xverify(o); break;
    case K_SET_UI: case K_GET_UI: do_xui(o); break;
    case K_SET_CFG: case K_GET_CFG: case K_GET_ALL: do_xcfg(o); break;
    case K_XUPD: do_xupdate(o); break;
    case K_XDONE: LIB_CALL(s.x->update_done()); s.empty = false; break;
    case K_XEXIST: do_xexist(o); break;
    case K_XMERGE: do_xmerge(o); break;
    case K_SYNC: {
      if (!s.many.empty()) break;
      FileModel &m = W->fm[s.file]; u64 f0 = total_fired(); R->step_limit = x_budget(m, s.file, 0);
      LIB_CALL(s.x->flush());
      trace("xflush f%d", s.file);
      if (total_fired() == f0 && !s.ro && !m.werr && !s.poisoned) { m.synced = 2; R->stat["syncs_ok"]++; }
      else if (total_fired() != f0) { m.werr = true; s.poisoned = true; }       // flush() cannot tell
      break;
    }
    default: break;
  }
  return true;
}
