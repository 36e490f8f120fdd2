// Database files written earlier (golden/): an image and what it holds.  Loaded as if they had always been on the disk.
std::string golden_dir, golden_out;
static std::string hex(const std::string &s) { std::string o = "x"; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
static std::string unhex(const std::string &s) { std::string o; for (size_t i = 1; i + 1 < s.size(); i += 2) o.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16)); return o; }
static const char *golden_pars[] = {"bsize", "nb", "hash", "kstyle", "cmp", "uilen", "ncfg", "elen", "names"};
bool golden_read(int idx, Golden &g) {
  char n[32]; snprintf(n, sizeof n, "/%03d.gold", idx);
  FILE *f = fopen((golden_dir + n).c_str(), "rb"); if (!f) return false;
  std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  fclose(f);
  size_t at = 0;
  while (at < s.size()) {
    size_t e = s.find('\n', at); std::string l = s.substr(at, e - at); at = e + 1;
    std::vector<std::string> w; { size_t i = 0; while (i < l.size()) { size_t j = l.find(' ', i); if (j == std::string::npos) j = l.size(); w.push_back(l.substr(i, j - i)); i = j + 1; } }
    if (w[0] == "par") g.par[w[1]] = atoll(w[2].c_str());
    else if (w[0] == "img") { g.image = s.substr(at); return (long long)g.image.size() == atoll(w[1].c_str()); }
    else g.lines.push_back(w);
    if (w[0] == "k") g.len[atoi(w[1].c_str())] = atoll(w[4].c_str());
    if (w[0] == "e") g.len[atoi(w[1].c_str())] = atoll(w[3].c_str()) * (i64)(w.size() - 4);
  }
  return false;
}
static void golden_write(const Plan &p, int kind) {
  FileModel &m = W->fm[0];
  if (R->violated || !m.exists || m.weak || m.gone || m.corrupt || m.unjudged || m.ui_any || m.cfg_unknown || m.ui.size() != 1) return;
  for (auto &s : W->sl) if (s.db || s.x) return;
  std::string o; char b[200];
  for (auto n : golden_pars) { int v = fpar(p, 0, n, -12345); if (v != -12345) { snprintf(b, sizeof b, "par %s %d\n", n, v); o += b; } }
  snprintf(b, sizeof b, "par kind %d\npar moved %d\npar mncfg %d\npar uimax %u\n", kind, (int)m.moved, m.ncfg, m.uimax); o += b;
  o += "ui " + hex(m.ui[0]) + "\n";
  for (auto &k : m.live) {
    if (k.second.poss.size() != 1 || k.second.absent) return;
    std::string key; bool ok = false; for (auto &q : m.kid_of) if (q.second == k.first) { key = q.first; ok = true; }
    if (!ok) return;
    const Val &v = k.second.poss[0];
    if (v.vid >= ENS_BASE) { const Row &r = rows[(size_t)(v.vid - ENS_BASE)]; o += "e " + std::to_string(k.first) + " " + hex(key) + " " + std::to_string(r.elen); for (i64 e : r.evid) o += " " + std::to_string(e); o += "\n"; }
    else o += "k " + std::to_string(k.first) + " " + hex(key) + " " + std::to_string(v.vid) + " " + std::to_string(v.len) + "\n";
  }
  for (auto &c : m.cfg) { if (c.second.size() != 1) return; const Cfg &q = c.second[0]; snprintf(b, sizeof b, "c %d %d %d %d %d %d ", c.first, q.config, q.index, q.inserted, q.type, q.mtime); o += b; o += hex(q.fname) + "\n"; }
  std::string img = fs_content(fpath(0));
  o += "img " + std::to_string(img.size()) + "\n" + img;
  FILE *f = fopen(golden_out.c_str(), "wb"); if (f) { fwrite(o.data(), 1, o.size(), f); fclose(f); }
}
static void do_load(const Op &o) {
  int f = (int)o.a[0]; FileModel &m = W->fm[f]; Golden g;
  if (m.exists || !golden_read((int)o.a[1], g)) return;
  fs_set_content(fpath(f), g.image);
  m = FileModel(); m.exists = true; m.moved = g.par["moved"]; m.ncfg = (int)g.par["mncfg"]; m.uimax = (unsigned)g.par["uimax"]; m.synced = 2;
  for (auto &w : g.lines) {
    if (w[0] == "ui") m.ui.assign(1, unhex(w[1]));
    else if (w[0] == "k" || w[0] == "e") {
      int kid = atoi(w[1].c_str()); Val v;
      if (w[0] == "k") { v.vid = atoll(w[3].c_str()); v.len = atoll(w[4].c_str()); }
      else { Row r; r.elen = atoll(w[3].c_str()); for (size_t i = 4; i < w.size(); i++) r.evid.push_back(atoll(w[i].c_str())); v = x_row(r); }
      m.kid_of[unhex(w[2])] = kid; KeyState k; k.poss.push_back(v); m.live[kid] = k; m.ever[kid].insert(v);
    } else if (w[0] == "c") {
      Cfg c; c.config = atoi(w[2].c_str()); c.index = atoi(w[3].c_str()); c.inserted = atoi(w[4].c_str()); c.type = atoi(w[5].c_str()); c.mtime = atoi(w[6].c_str()); c.fname = unhex(w[7]);
      m.cfg[atoi(w[1].c_str())].assign(1, c);
    }
  }
  R->stat["goldens_loaded"]++;
  trace("load f%d golden %d", f, (int)o.a[1]);
}
