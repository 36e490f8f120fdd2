// What the engine needs of the C++ classes, without their templates.
#pragma once
#include <string>
#include <vector>
#include <utility>
struct XCfg { int config = 0, index = 0, inserted = 0, type = 0, mtime = 0; std::string url; };
struct XOpt { int bsize = 512, nb = 1, hash = 0, cmp = 0; unsigned cache = 0; int cacheMB = -1; bool rearr = false; long uilen = -1; int ncfg = 0; std::vector<int> configs; std::vector<std::string> names; long elen = 0; };
typedef std::vector<std::string> SV;
struct XPair { std::string key; SV val; };
enum { XE_EXC = -100 };     // the call threw an exception
enum XKind { X_SINGLE_S = 1, X_SINGLE_B, X_ENS_S, X_ENS_B, X_SIMPLE, X_MULTI, X_EMULTI, X_SINGLE_F };
// single stores use one element vectors
struct XStore {
  virtual ~XStore() {}
  virtual int open(const std::string &path, int flags, int mode) = 0;
  virtual int openm(const SV &) { return -1; }
  virtual bool exists(const SV &) { return false; }
  virtual int close() = 0;
  virtual int put(int variant, const std::string &key, const SV &val) = 0;
  virtual int get(int variant, const std::string &key, SV &val) = 0;      // 0 found, 1 not, else error
  virtual int exist(const std::string &key) = 0;
  virtual int scan(int variant, std::vector<XPair> &out, bool &data, bool &one) = 0;
  virtual void flush() {}
  virtual int set_ui(const std::string &) { return -1; }
  virtual int get_ui(std::string &) { return -1; }
  virtual unsigned max_ui() { return 0; }
  virtual unsigned max_cfg() { return 0; }
  virtual int update(const std::string &, const std::string &, int, int) { return -1; }
  virtual void update_done() {}
  virtual int set_cfg(const XCfg &) { return -1; }
  virtual int get_cfg(unsigned, XCfg &) { return -1; }
  virtual int get_all(std::vector<XCfg> &) { return -1; }
  virtual int size() { return 0; }
  virtual std::string name() { return ""; }
  virtual int merge(const std::vector<int> &, const SV &, unsigned, bool) { return -1; }
};
XStore *x_make(int kind, const XOpt &o);
std::string x_ser(int data, const std::string &s);    // a string as the library stores it: as key (0), string data (1), vector of numbers (2), the same as earlier versions did or "" (3)
void x_reset();            // a new run begins
