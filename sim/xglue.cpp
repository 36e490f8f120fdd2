// The repository's C++ classes, instantiated for the simulator.
#include "ConfDataStoreDB.h"
#include "ConfDataStoreDBSimple.h"
#include "AllConfStoreDB.h"
#include "ConfDataStoreMultipleDB.h"
#include "AllConfStoreMultipleDB.h"
#include "ConfDataDBMerger.h"
#include "DBString.h"
#include "VFloatData.h"
#include "xstore.h"
#include <fcntl.h>
#include <map>
#include <cmath>
#include <cstring>
#include <exception>
using namespace FILEDB;

// A user's own key class: raw bytes, with its own hash and compare functions.
static int g_hash, g_cmp; static long g_elen;
struct BinKey : public DBKey {
  std::string s;
  BinKey() {}
  BinKey(const std::string &x) : s(x) {}
  int operator==(const BinKey &o) const { return s == o.s; }
  unsigned short serialID() const { return 7; }
  int hasHashFunc() const { return g_hash; }
  int hasCompareFunc() const { return g_cmp; }
  void writeObject(std::string &o) const { o = s; }
  void readObject(const std::string &i) { s = i; }
  operator std::string() { return s; }
  static unsigned hash(const void *p, unsigned n) { unsigned h = 0; for (unsigned i = 0; i < n; i++) h = h * 5 + ((const unsigned char *)p)[i]; return g_hash == 2 ? h & 3 : h; }
  static int compare(const FFDB_DBT *a, const FFDB_DBT *b) { if (a->size != b->size) return a->size < b->size ? -1 : 1; return memcmp(a->data, b->data, (size_t)a->size); }
};
// A user's own data class: raw bytes, refuses what it cannot have written (a blank element is allowed, it is the default)
struct BinData : public DBData {
  std::string s;
  BinData() : s((size_t)g_elen, '\0') {}
  BinData(const std::string &x) : s(x) {}
  unsigned short serialID() const { return 8; }
  void writeObject(std::string &o) const { o = s; }
  void readObject(const std::string &i) { s = i; }
  operator std::string() { return s; }
};
// The library's vectors of numbers. A value of the model, a string of n bytes, stands for n times a number of its own: whole and
// fractional, of either sign, very large and very small.
static std::map<std::string, unsigned> g_num; static std::map<std::pair<size_t, unsigned>, std::string> g_str;
extern bool heap_busy; struct Own { bool was = heap_busy; Own() { heap_busy = true; } ~Own() { heap_busy = was; } };     // the table is no memory of the library
static float number(const std::string &s) {
  Own own;
  auto it = g_num.find(s); unsigned bits; float f;
  if (it != g_num.end()) bits = it->second;
  else for (unsigned t = 0;; t++) {
    unsigned long long h = 1469598103934665603ull + t; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    h ^= h >> 29; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 32;
    unsigned x = (unsigned)(h >> 8);
    switch (h & 7) { case 0: f = (float)(x % 200); break; case 1: f = (float)(x % 2000000) - 1000000; break; case 2: f = (float)(x % 100000) / 64; break; case 3: f = -(float)(x % 1000) * 0.001f; break;
      case 4: f = (float)(x & 0xffffffu); break; default: memcpy(&f, &x, 4); }
    if (f != f) continue;
    memcpy(&bits, &f, 4);
    if (g_str.count({s.size(), bits})) continue;
    g_num[s] = bits; g_str[{s.size(), bits}] = s; break;
  }
  memcpy(&f, &bits, 4); return f;
}
struct FV : public VFloatData {
  FV() {}
  FV(const std::string &s) : VFloatData((unsigned)s.size(), s.empty() ? 0.f : number(s)) {}
  operator std::string() {
    const std::vector<float> &v = *this; if (v.empty()) return numberOfElements() == 0 ? "" : "?";
    unsigned b; memcpy(&b, &v[0], 4); if (numberOfElements() != (int)v.size()) return "?";
    for (auto &f : v) if (memcmp(&f, &b, 4)) return "elements differ";
    auto it = g_str.find({v.size(), b}); return it == g_str.end() ? "numbers never stored" : it->second;
  }
};
void x_reset() { Own own; g_num.clear(); g_str.clear(); }
#define GUARD(...) try { __VA_ARGS__ } catch (std::exception &e) { return XE_EXC; } catch (...) { return XE_EXC; }
template <class C> static void options(C &c, const XOpt &o) {
  c.setPageSize(o.bsize); c.setNumberBuckets(o.nb);
  if (o.cacheMB >= 0) c.setCacheSizeMB(o.cacheMB); else if (o.cache) c.setCacheSize(o.cache);
  if (o.rearr) c.enablePageMove(); else c.disablePageMove();
  if (o.uilen >= 0) c.setMaxUserInfoLen((unsigned)o.uilen);
}
static void spread(SV &k, SV &v, std::vector<XPair> &out) { for (size_t i = 0; i < k.size(); i++) { XPair p; p.key = k[i]; if (i < v.size()) p.val.push_back(v[i]); out.push_back(p); } }

template <class K, class D> static std::string raw(const K &k) { std::string o; k.writeObject(o); return o; }
template <class K> static std::string ser(const K &k) { std::string o; k.writeObject(o); return o; }
template <class K> static std::string unser(const std::string &r) { K k; k.readObject(r); return (std::string)k; }

// ---- one configuration
template <class K, class D> struct Single : XStore {
  ConfDataStoreDB<K, D> d, *copy = nullptr;
  Single(const XOpt &o) { options(d, o); if (o.ncfg > 0) d.setMaxNumberConfigs(o.ncfg); }
  ~Single() { delete copy; }
  int open(const std::string &p, int f, int m) override { GUARD(return d.open(p, f, m);) }
  int close() override { GUARD(return d.close();) }
  int put(int v, const std::string &k, const SV &x) override {
    GUARD(switch (v % 3) { case 0: return d.insert(K(k), D(x[0])); case 1: return d.insertWithStringKey(ser(K(k)), D(x[0])); default: return d.insertBinary(ser(K(k)), ser(D(x[0]))); })
  }
  int get(int v, const std::string &k, SV &x) override {
    GUARD(
      if (v % 2 == 0) { D e; int r = d.get(K(k), e); if (r == 0) x.push_back((std::string)e); return r; }
      std::string b("not touched"); int r = d.getBinary(ser(K(k)), b); if (r == 0) x.push_back(unser<D>(b)); return r;)
  }
  int exist(const std::string &k) override { GUARD(return d.exist(K(k)) ? 1 : 0;) }
  int scan(int v, std::vector<XPair> &out, bool &data, bool &one) override {
    data = true; one = false;
    GUARD(
      std::vector<K> ks; std::vector<D> ds; SV k; SV w;
      switch (v % 6) {
        case 0: d.keys(ks); data = false; break;
        case 1: d.binaryKeys(k); data = false; break;
        case 2: d.keysAndData(ks, ds); break;
        case 3: d.stringKeysAndData(k, ds); break;
        case 4: d.binaryKeysAndData(k, w); break;
        case 5: d.someKeyAndData(ks, ds); one = true; break;
      }
      for (auto &q : ks) k.push_back(ser(q));
      for (auto &q : ds) w.push_back(ser(q));
      if (data && k.size() != w.size()) return -2;
      for (auto &q : k) q = unser<K>(q);
      for (auto &q : w) q = unser<D>(q);
      spread(k, w, out); return 0;)
  }
  void flush() override { d.flush(); }
  int set_ui(const std::string &u) override { GUARD(return d.insertUserdata(u);) }
  int get_ui(std::string &u) override { GUARD(return d.getUserdata(u);) }
  unsigned max_ui() override { return d.getMaxUserInfoLen(); }
  unsigned max_cfg() override { return d.getMaxNumberConfigs(); }
  std::string name() override { return d.storageName(); }
};
struct Simple : XStore {
  typedef StringKey K; typedef UserData D;
  ConfDataStoreDBSimple d;
  Simple(const XOpt &o) { options(d, o); if (o.ncfg > 0) d.setMaxNumberConfigs(o.ncfg); }
  int open(const std::string &p, int f, int m) override { GUARD(return d.open(p, f, m);) }
  int close() override { GUARD(return d.close();) }
  int put(int, const std::string &k, const SV &x) override { GUARD(return d.insert(K(k), D(x[0]));) }
  int get(int, const std::string &k, SV &x) override { GUARD(D e; int r = d.get(K(k), e); if (r == 0) x.push_back((std::string)e); return r;) }
  int exist(const std::string &k) override { GUARD(return d.exist(K(k)) ? 1 : 0;) }
  int scan(int v, std::vector<XPair> &out, bool &data, bool &one) override {
    one = false; data = v & 1;
    GUARD(
      std::vector<K> ks; std::vector<D> ds; SV k; SV w;
      if (data) d.keysAndData(ks, ds); else d.keys<K, D>(ks);
      for (auto &q : ks) k.push_back((std::string)q);
      for (auto &q : ds) w.push_back((std::string)q);
      if (data && k.size() != w.size()) return -2;
      spread(k, w, out); return 0;)
  }
  void flush() override { d.flush(); }
  int set_ui(const std::string &u) override { GUARD(return d.insertUserdata(u);) }
  int get_ui(std::string &u) override { GUARD(return d.getUserdata(u);) }
  unsigned max_ui() override { return d.getMaxUserInfoLen(); }
  unsigned max_cfg() override { return d.getMaxNumberConfigs(); }
  std::string name() override { return d.storageName(); }
};
// ---- ensembles
template <class K, class D> struct Ens : XStore {
  AllConfStoreDB<K, D> d;
  Ens(const XOpt &o) : d(o.names.empty() ? AllConfStoreDB<K, D>(o.configs) : AllConfStoreDB<K, D>(o.configs, o.names)) { options(d, o); }
  Ens(const XOpt &o, int) : d() { options(d, o); }
  int open(const std::string &p, int f, int m) override { GUARD(return d.open(p, f, m);) }
  int close() override { GUARD(return d.close();) }
  std::vector<D> many(const SV &x) { std::vector<D> r; for (auto &s : x) r.push_back(D(s)); return r; }
  int put(int v, const std::string &k, const SV &x) override {
    GUARD(switch (v % 3) {
      case 0: return d.insert(K(k), many(x));
      case 1: return d.insertWithStringKey(ser(K(k)), many(x));
      default: { SV b; for (auto &e : many(x)) b.push_back(ser(e)); return d.insertBinaryData(ser(K(k)), b); }
    })
  }
  int get(int v, const std::string &k, SV &x) override {
    GUARD(
      int r; std::vector<D> vs; SV b;
      switch (v % 3) {
        case 0: r = d.get(K(k), vs); break;
        case 1: r = d.getFromStringKey(ser(K(k)), vs); break;
        default: r = d.getBinaryData(ser(K(k)), b);
      }
      if (r == 0) { for (auto &e : vs) x.push_back((std::string)e); for (auto &e : b) x.push_back(unser<D>(e)); }
      return r;)
  }
  int exist(const std::string &k) override { GUARD(return d.exist(K(k)) ? 1 : 0;) }
  int scan(int v, std::vector<XPair> &out, bool &data, bool &one) override {
    one = false; data = true;
    GUARD(
      std::vector<K> ks; std::vector<std::vector<D>> ds; SV k;
      switch (v % 5) {
        case 0: d.keys(ks); data = false; break;
        case 1: d.binaryKeys(k); data = false; break;
        case 2: d.keysAndData(ks, ds); break;
        case 3: d.stringKeysAndData(k, ds); break;
        case 4: {
          data = false; auto e = d.end();
          if (v / 5 % 3 == 0) { for (auto i = d.begin(); i != e; ++i) { ks.push_back(*i); if (!((std::string)ks.back() == (std::string)K(*i.operator->()))) return -2; } }
          else if (v / 5 % 3 == 1) { for (auto i = d.begin(); i != e; i++) { K k = *i; ks.push_back(k); } }
          else {                        // iterators copied and assigned
            DBKeyIterator<K, D> i, last; i = d.begin(); auto first = i; last = e;
            while (i != last) { auto was = i; K k = *i; ks.push_back(k); ++i; K k2 = *was; if (!((std::string)k2 == (std::string)k)) return -2; auto &self = i; i = self; if (i == last && !(last == i)) return -2; }
            if (ks.size() && !((std::string)K(*first) == (std::string)K(ks[0]))) return -2;
          }
          break; }
      }
      for (auto &q : ks) k.push_back(ser(q));
      if (data && k.size() != ds.size()) return -2;
      for (size_t i = 0; i < k.size(); i++) { XPair p; p.key = unser<K>(k[i]); if (data) for (auto &e : ds[i]) p.val.push_back((std::string)e); out.push_back(p); }
      return 0;)
  }
  void flush() override { d.flush(); }
  int set_ui(const std::string &u) override { GUARD(return d.insertUserdata(u);) }
  int get_ui(std::string &u) override { GUARD(return d.getUserdata(u);) }
  unsigned max_ui() override { return d.getMaxUserInfoLen(); }
  unsigned max_cfg() override { return d.getMaxNumberConfigs(); }
  int update(const std::string &k, const std::string &x, int c, int i) override { GUARD(return d.update(K(k), D(x), c, i);) }
  void update_done() override { d.updateDone(); }
  static XCfg from(const ConfigInfo &c) { XCfg x; x.config = c.configNumber(); x.index = c.index(); x.inserted = c.inserted(); x.type = c.type(); x.mtime = c.modifiedTime(); x.url = c.urlname(); return x; }
  int set_cfg(const XCfg &x) override { GUARD(ConfigInfo c; c.configNumber(x.config); c.index(x.index); c.insert(x.inserted); c.type(x.type); c.modifiedTime(x.mtime); c.urlname(x.url); return d.setConfigInfo(c);) }
  int get_cfg(unsigned n, XCfg &x) override { GUARD(ConfigInfo c; int r = d.getConfigInfo(n, c); if (r == 0) x = from(c); return r;) }
  int get_all(std::vector<XCfg> &v) override { GUARD(std::vector<ConfigInfo> c; int r = d.getAllConfigInfo(c); if (r == 0) for (auto &e : c) v.push_back(from(e)); return r;) }
  int size() override { return d.size(); }
  std::string name() override { return d.storageName(); }
  int merge(const std::vector<int> &nums, const SV &names, unsigned mem, bool byinfo) override {
    GUARD(
      if (byinfo) {
        std::vector<ConfigInfo> ci;
        for (size_t i = 0; i < nums.size(); i++) { ConfigInfo c; c.configNumber(nums[i]); c.index((int)i); c.type(0); if (names[i] != "N/A") c.urlname(names[i]); ci.push_back(c); }
        ConfDataDBMerger<K, D> m(ci, mem); m.setDatabaseHandle(&d); m.merge();
      } else { ConfDataDBMerger<K, D> m(nums, names, mem); m.setDatabaseHandle(&d); m.merge(); }
      return 0;)
  }
};
// ---- several read-only files
struct Multi : XStore {
  typedef StringKey K; typedef UserData D;
  ConfDataStoreMultipleDB<K, D> d;
  int open(const std::string &, int, int) override { return -1; }
  int openm(const SV &f) override { GUARD(return d.open(f);) }
  bool exists(const SV &f) override { return d.fileExists(f); }
  int close() override { GUARD(return d.close();) }
  int put(int, const std::string &, const SV &) override { return -1; }
  int get(int v, const std::string &k, SV &x) override {
    GUARD(
      if (v % 2 == 0) { D e; int r = d.get(K(k), e); if (r == 0) x.push_back((std::string)e); return r; }
      std::string b; int r = d.getBinary(ser(K(k)), b); if (r == 0) x.push_back(unser<D>(b)); return r;)
  }
  int exist(const std::string &k) override { GUARD(return d.exist(K(k)) ? 1 : 0;) }
  int scan(int, std::vector<XPair> &out, bool &data, bool &one) override { data = one = false; GUARD(std::vector<K> ks; d.keys(ks); for (auto &q : ks) { XPair p; p.key = (std::string)q; out.push_back(p); } return 0;) }
  int get_ui(std::string &u) override { GUARD(return d.getUserdata(u);) }
};
struct EMulti : XStore {
  typedef StringKey K; typedef UserData D;
  AllConfStoreMultipleDB<K, D> d;
  int open(const std::string &, int, int) override { return -1; }
  int openm(const SV &f) override { GUARD(return d.open(f);) }
  bool exists(const SV &f) override { return d.fileExists(f); }
  int close() override { GUARD(return d.close();) }
  int put(int, const std::string &, const SV &) override { return -1; }
  int get(int, const std::string &k, SV &x) override { GUARD(std::vector<D> vs; int r = d.get(K(k), vs); if (r == 0) for (auto &e : vs) x.push_back((std::string)e); return r;) }
  int exist(const std::string &k) override { GUARD(return d.exist(K(k)) ? 1 : 0;) }
  int scan(int, std::vector<XPair> &, bool &, bool &) override { return -3; }
  int get_ui(std::string &u) override { GUARD(return d.getUserdata(u);) }
  int size() override { return d.size(); }
};
// as versions of the library before this one stored a vector: the bytes of a whole number swapped, as a float of the machine
static std::string old_floats(const std::string &s) {
  float f = s.empty() ? 0 : number(s); if (!(f >= 0 && f < 128 && f == (float)(int)f) || std::signbit(f)) return "";
  std::string o("\x66\x77\0\0", 4); unsigned n = (unsigned)s.size(); for (int i = 3; i >= 0; i--) o += (char)(n >> 8 * i);
  float g = (float)(((unsigned)(int)f) << 24); for (unsigned i = 0; i < n; i++) o.append((const char *)&g, 4);
  return o;
}
std::string x_ser(int data, const std::string &s) { if (data == 3) return old_floats(s); return data == 2 ? ser(FV(s)) : data ? ser(UserData(s)) : ser(StringKey(s)); }
static XStore *make(int kind, const XOpt &o) {
  static bool once = (std::set_terminate([] { abort(); }), std::cerr.setstate(std::ios::failbit), true); (void)once;
  g_hash = o.hash; g_cmp = o.cmp; g_elen = o.elen;
  switch (kind) {
    case X_SINGLE_S: return new Single<StringKey, UserData>(o);
    case X_SINGLE_F: return new Single<StringKey, FV>(o);
    case X_SINGLE_B: return new Single<BinKey, BinData>(o);
    case X_ENS_S: return o.configs.empty() ? new Ens<StringKey, UserData>(o, 0) : new Ens<StringKey, UserData>(o);
    case X_ENS_B: return o.configs.empty() ? new Ens<BinKey, BinData>(o, 0) : new Ens<BinKey, BinData>(o);
    case X_SIMPLE: return new Simple(o);
    case X_MULTI: return new Multi;
    case X_EMULTI: return new EMulti;
  }
  return nullptr;
}
XStore *x_make(int kind, const XOpt &o) { try { return make(kind, o); } catch (std::bad_alloc &) { return nullptr; } }
