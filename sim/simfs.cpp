// Simulated disk: every file call of the code under test lands here (link
// time --wrap), with fault injection and a durable / volatile split.
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <memory>
#include <algorithm>

const char *call_names[C_NKINDS] = {"open", "read", "write", "seek", "trunc", "fsync", "close", "stat", "malloc", "anyio"};
const char *act_names[A_NACTS] = {"eio", "enospc", "emfile", "enomem", "short", "kill-before", "kill-torn", "kill-after", "power-before", "power-after"};

// File content: sparse, copy-on-write chunks, so multi-gigabyte files with
// few touched pages and cheap durable snapshots are possible.
static const u64 CH = 4096;
typedef std::shared_ptr<std::string> Chunk;
struct Bytes {
  std::map<u64, Chunk> m;
  u64 size = 0;
  void read(u64 off, char *dst, size_t n) const {
    while (n) {
      u64 c = off / CH, o = off % CH; size_t k = (size_t)std::min<u64>(n, CH - o);
      auto i = m.find(c);
      if (i == m.end()) memset(dst, 0, k); else memcpy(dst, i->second->data() + o, k);
      dst += k; off += k; n -= k;
    }
  }
  void write(u64 off, const char *src, size_t n) {
    if (!n) return;
    if (off + n > size) size = off + n;
    while (n) {
      u64 c = off / CH, o = off % CH; size_t k = (size_t)std::min<u64>(n, CH - o);
      Chunk &p = m[c];
      if (!p) p = std::make_shared<std::string>(CH, '\0');
      else if (p.use_count() > 1) p = std::make_shared<std::string>(*p);
      memcpy(&(*p)[o], src, k);
      src += k; off += k; n -= k;
    }
  }
  void trunc(u64 n) {
    if (n < size) {
      u64 c = n / CH, o = n % CH;
      auto i = m.find(c);
      if (i != m.end() && o) {
        if (i->second.use_count() > 1) i->second = std::make_shared<std::string>(*i->second);
        memset(&(*i->second)[o], 0, CH - o);
        ++i;
      } else if (i == m.end()) i = m.lower_bound(c);
      m.erase(i, m.end());
    }
    size = n;
  }
  u64 hash() const {
    u64 h = mix64(size, 3);
    static const std::string zero(CH, '\0');
    for (auto &c : m) { if (*c.second == zero) continue; h = mix64(h, c.first); h = hash_bytes(c.second->data(), CH, h); }
    return h;
  }
};
struct Pend { int kind; u64 off; std::string data; };   // 0 write, 1 truncate
struct Inode {
  Bytes cur, dur;
  std::vector<Pend> pend;
  mode_t mode = 0644;
  u64 muts = 0;
  int num = 0;
};
struct FD { std::shared_ptr<Inode> ino; u64 pos; int flags; };
static std::map<std::string, std::shared_ptr<Inode>> files;
static std::map<int, FD> fds;
static int next_ino = 1;
static const int FD_BASE = 1000;
static const u64 MAX_FILE = 1ull << 40;
static u64 disk_quota = 0;      // 0: unlimited; bytes of non-hole data otherwise
bool in_lib = false;

static mode_t cur_umask = 022;
int fs_umask() { return (int)cur_umask; }
int fs_mode(const std::string &p) { auto i = files.find(p); return i == files.end() ? -1 : (int)(i->second->mode & 07777); }
void fs_reset() { cur_umask = 022; files.clear(); fds.clear(); next_ino = 1; disk_quota = 0; }
void fs_drop_process() { fds.clear(); cur_umask = 022; }
bool fs_exists(const std::string &p) { return files.count(p) > 0; }
u64 fs_size(const std::string &p) { auto i = files.find(p); return i == files.end() ? 0 : i->second->cur.size; }
std::string fs_content(const std::string &p) {
  auto i = files.find(p); if (i == files.end()) return std::string();
  Bytes &b = i->second->cur; std::string s((size_t)std::min<u64>(b.size, 1u << 28), '\0');
  b.read(0, &s[0], s.size()); return s;
}
std::string fs_read_at(const std::string &p, u64 off, size_t n) {
  auto i = files.find(p); std::string s(n, '\0');
  if (i != files.end()) i->second->cur.read(off, &s[0], n);
  return s;
}
void fs_set_content(const std::string &p, const std::string &c) {
  auto &f = files[p];
  if (!f) { f = std::make_shared<Inode>(); f->num = next_ino++; }
  f->cur = Bytes(); f->cur.write(0, c.data(), c.size()); f->cur.size = c.size();
  f->dur = f->cur; f->pend.clear();
}
void fs_poke(const std::string &p, u64 off, const std::string &d) {
  auto i = files.find(p); if (i == files.end()) return;
  i->second->cur.write(off, d.data(), d.size()); i->second->dur = i->second->cur; i->second->pend.clear();
}
void fs_copy(const std::string &a, const std::string &b) {
  auto i = files.find(a); if (i == files.end()) return;
  auto n = std::make_shared<Inode>(); n->num = next_ino++; n->cur = n->dur = i->second->cur; files[b] = n;
}
void fs_unlink(const std::string &p) { files.erase(p); }
u64 fs_hash(const std::string &p) { auto i = files.find(p); return i == files.end() ? 0 : i->second->cur.hash(); }
int fs_open_count() { return (int)fds.size(); }
u64 fs_mutations(const std::string &p) { auto i = files.find(p); return i == files.end() ? 0 : i->second->muts; }
bool fs_all_durable(const std::string &p) { auto i = files.find(p); return i == files.end() ? true : i->second->pend.empty(); }
void fs_make_durable() { for (auto &f : files) { f.second->dur = f.second->cur; f.second->pend.clear(); } }
void fs_set_quota(u64 q) { disk_quota = q; }
static u64 used_bytes() { u64 t = 0; for (auto &f : files) t += f.second->cur.m.size() * CH; return t; }
u64 fs_used() { return used_bytes(); }

static void apply(Bytes &s, const Pend &p, size_t n) {
  if (p.kind == 1) { s.trunc(p.off); return; }
  s.write(p.off, p.data.data(), n);
}
void fs_crash(bool power, u64 sub) {
  fds.clear(); cur_umask = 022;
  if (!power) return;
  Rng r(mix64(sub, 77));
  for (auto &kv : files) {
    Inode &f = *kv.second;
    Bytes img = f.dur;
    unsigned mode = r.below(4);   // 0: all lost, 1: prefix survives, 2/3: arbitrary subset (reordered writeback), some torn
    size_t cut = r.below(f.pend.size() + 1);
    unsigned keep = r.range(100, 900);
    for (size_t i = 0; i < f.pend.size(); i++) {
      const Pend &p = f.pend[i];
      size_t n = p.data.size();
      if (mode == 0) continue;
      if (mode == 1) {
        if (i > cut) continue;
        if (i == cut) n = n ? (r.below(n / 512 + 1) * 512) : 0;
        if (i == cut && p.kind == 1) continue;
        apply(img, p, n < p.data.size() ? n : p.data.size());
        continue;
      }
      if (!r.chance(keep)) continue;
      if (p.kind == 0 && r.chance(150)) {
        // torn inside the write: each 512 byte sector independently
        size_t len = p.data.size();
        for (size_t o = 0; o < len; o += 512) {
          if (!r.chance(600)) continue;
          Pend q; q.kind = 0; q.off = p.off + o; q.data = p.data.substr(o, 512);
          apply(img, q, q.data.size());
        }
      } else apply(img, p, n);
    }
    f.cur = img; f.dur = img;
    f.pend.clear();
  }
}

// ---------------------------------------------------------------- faults
// Looks up the fault for this call.  Returns the fault or null.
static Fault *fault_for(int call) {
  Busy bg;
  if (!R || !R->plan || !in_lib) return nullptr;
  int n = R->calls[call]++;
  int any = -1;
  if (call != C_MALLOC) any = R->calls[C_ANYIO]++;
  if (R->profiling) {
    auto &v = R->prof[R->cur_op];
    if (v.empty()) v.assign(C_NKINDS, 0);
    v[call]++;
    if (call != C_MALLOC) v[C_ANYIO]++;
    return nullptr;
  }
  auto &fs = R->plan->faults;
  for (size_t i = 0; i < fs.size(); i++) {
    Fault &f = fs[i];
    if (R->fault_done[i]) {
      if (R->fault_left[i] > 0 && f.call == call) {
        R->fault_left[i]--;
        R->fired[f.act]++; R->fired_call[call]++;
        trace("fault-repeat %s %s", call_names[call], act_names[f.act]);
        return &f;
      }
      continue;
    }
    if (f.op != R->cur_op) continue;
    if ((f.call == call && f.nth == n) || (f.call == C_ANYIO && call != C_MALLOC && f.nth == any)) {
      R->fault_done[i] = 1;
      R->fault_left[i] = f.repeat;
      R->fired[f.act]++; R->fired_call[call]++;
      trace("fault op=%d %s#%d %s %lld", R->cur_op, call_names[call], n, act_names[f.act], (long long)f.arg);
      return &f;
    }
  }
  return nullptr;
}
static int err_of(int act) {
  switch (act) { case A_ERR_EIO: return EIO; case A_ERR_ENOSPC: return ENOSPC; case A_ERR_EMFILE: return EMFILE; case A_ERR_ENOMEM: return ENOMEM; }
  return 0;
}
static void before(Fault *f) {
  if (!f) return;
  if (f->act == A_KILL_BEFORE) sim_die(D_KILL, "killed before call");
  if (f->act == A_POWER_BEFORE) { R->stat["power_seed"] = (u64)f->arg; sim_die(D_POWER, "power lost before call"); }
}
static void after(Fault *f) {
  if (!f) return;
  if (f->act == A_KILL_AFTER || f->act == A_KILL_TORN) sim_die(D_KILL, "killed after call");
  if (f->act == A_POWER_AFTER) { R->stat["power_seed"] = (u64)f->arg; sim_die(D_POWER, "power lost after call"); }
}

static bool is_sim(const char *p) { return p && strncmp(p, "/sim/", 5) == 0; }
static FD *get_fd(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : &i->second; }

static bool budget(u64 n) {
  // I/O also consumes simulated time and budget
  R->now_us += 50 + n / 64;
  R->steps += 20; R->total_steps += 20;
  if (R->step_limit && R->steps > R->step_limit) sim_die(D_HANG, "step budget exceeded in I/O");
  return true;
}

static int do_open(const char *path, int flags, mode_t mode) {
  Busy bg;
  sched_point(2);
  budget(0);
  Fault *f = fault_for(C_OPEN);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); trace("open %s -> err", path); return -1; }
  auto it = files.find(path);
  if (it == files.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; trace("open %s ENOENT", path); return -1; }
    auto ino = std::make_shared<Inode>();
    ino->num = next_ino++; ino->mode = mode & ~cur_umask;
    files[path] = ino; it = files.find(path);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  Inode &n = *it->second;
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
    if (n.cur.size) n.muts++;
    n.cur.trunc(0); n.pend.push_back({1, 0, ""});
  }
  int fd = FD_BASE;
  while (fds.count(fd)) fd++;
  fds[fd] = FD{it->second, 0, flags};
  trace("open %s flags=%x -> %d size=%llu", path, flags & (O_ACCMODE | O_CREAT | O_TRUNC), fd, (unsigned long long)n.cur.size);
  after(f);
  return fd;
}
static ssize_t do_read(int fd, void *buf, size_t len, i64 off) {
  Busy bg;
  sched_point(2);
  FD *d = get_fd(fd);
  if (!d) { errno = EBADF; trace("read bad fd %d", fd); return -1; }
  budget(len);
  Fault *f = fault_for(C_READ);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); trace("read -> err"); return -1; }
  u64 pos = off < 0 ? d->pos : (u64)off;
  Inode &n = *d->ino;
  size_t k = pos >= n.cur.size ? 0 : n.cur.size - pos;
  if (k > len) k = len;
  if (f && f->act == A_SHORT && k > 1) k = 1 + (size_t)((u64)f->arg % (k - 1));
  if (k) n.cur.read(pos, (char *)buf, k);
  if (off < 0) d->pos += k;
  trace("read ino=%d off=%llu len=%zu -> %zu", n.num, (unsigned long long)pos, len, k);
  after(f);
  return (ssize_t)k;
}
static ssize_t do_write(int fd, const void *buf, size_t len, i64 off) {
  Busy bg;
  sched_point(2);
  FD *d = get_fd(fd);
  if (!d || (d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; trace("write bad fd %d", fd); return -1; }
  budget(len);
  Fault *f = fault_for(C_WRITE);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); trace("write -> err"); return -1; }
  Inode &n = *d->ino;
  u64 pos = off < 0 ? ((d->flags & O_APPEND) ? n.cur.size : d->pos) : (u64)off;
  size_t k = len;
  if (f && (f->act == A_SHORT || f->act == A_KILL_TORN) && k > 1) k = (size_t)((u64)f->arg % k);
  if (pos + k > MAX_FILE) { errno = EFBIG; trace("write EFBIG"); return -1; }
  if (disk_quota && used_bytes() + k > disk_quota) {
    // does the write need new blocks?
    for (u64 c = pos / CH; c <= (pos + k - 1) / CH; c++)
      if (!n.cur.m.count(c)) { errno = ENOSPC; R->fired[A_ERR_ENOSPC]++; R->fired_call[C_WRITE]++; trace("write disk full"); return -1; }
  }
  Pend p{0, pos, std::string((const char *)buf, k)};
  trace("write ino=%d off=%llu len=%zu -> %zu h=%llx", n.num, (unsigned long long)pos, len, k, (unsigned long long)hash_bytes(buf, k));
  apply(n.cur, p, k);
  n.pend.push_back(p);
  n.muts++;
  if (off < 0) d->pos = pos + k;
  after(f);
  return (ssize_t)k;
}
static off_t do_seek(int fd, off_t off, int wh) {
  Busy bg;
  FD *d = get_fd(fd);
  if (!d) { errno = EBADF; return -1; }
  sched_point(2);
  budget(0);
  Fault *f = fault_for(C_SEEK);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); return -1; }
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)d->pos : (i64)d->ino->cur.size;
  if (b + off < 0) { errno = EINVAL; return -1; }
  d->pos = (u64)(b + off);
  after(f);
  return (off_t)d->pos;
}
static int do_trunc(int fd, off_t len) {
  Busy bg;
  FD *d = get_fd(fd);
  if (!d || (d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  sched_point(2);
  budget(0);
  Fault *f = fault_for(C_TRUNC);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); trace("trunc err"); return -1; }
  Inode &n = *d->ino;
  trace("trunc ino=%d %lld (was %llu)", n.num, (long long)len, (unsigned long long)n.cur.size);
  if (len < 0) { errno = EINVAL; return -1; }
  if ((u64)len > MAX_FILE) { errno = EFBIG; return -1; }
  Pend p{1, (u64)len, ""};
  if ((u64)len != n.cur.size) n.muts++;
  apply(n.cur, p, 0);
  n.pend.push_back(p);
  after(f);
  return 0;
}
static int do_fsync(int fd) {
  Busy bg;
  FD *d = get_fd(fd);
  if (!d) { errno = EBADF; return -1; }
  sched_point(2);
  budget(0);
  Fault *f = fault_for(C_FSYNC);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); trace("fsync err"); return -1; }
  Inode &n = *d->ino;
  n.dur = n.cur; n.pend.clear();
  R->stat["fsyncs"]++;
  R->now_us += 2000;
  trace("fsync ino=%d", n.num);
  after(f);
  return 0;
}
static int do_close(int fd) {
  Busy bg;
  FD *d = get_fd(fd);
  if (!d) { errno = EBADF; return -1; }
  sched_point(2);
  budget(0);
  Fault *f = fault_for(C_CLOSE);
  before(f);
  fds.erase(fd);
  trace("close %d", fd);
  if (f && err_of(f->act)) { errno = err_of(f->act); return -1; }
  after(f);
  return 0;
}
static int fill(const Inode &n, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | (n.mode & 07777);
  st->st_size = (off_t)n.cur.size;
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_ino = n.num; st->st_nlink = 1;
  return 0;
}
static int do_stat(const char *p, struct stat *st) {
  Busy bg;
  sched_point(2);
  budget(0);
  Fault *f = fault_for(C_STAT);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); return -1; }
  auto it = files.find(p);
  if (it == files.end()) { errno = ENOENT; return -1; }
  fill(*it->second, st);
  after(f);
  return 0;
}
static int do_fstat(int fd, struct stat *st) {
  Busy bg;
  FD *d = get_fd(fd);
  if (!d) { errno = EBADF; return -1; }
  sched_point(2);
  budget(0);
  Fault *f = fault_for(C_STAT);
  before(f);
  if (f && err_of(f->act)) { errno = err_of(f->act); return -1; }
  fill(*d->ino, st);
  after(f);
  return 0;
}

// ---------------------------------------------------------------- wrappers
#define REAL(ret, name, args) extern "C" ret __real_##name args
REAL(int, open, (const char *, int, ...));
REAL(ssize_t, read, (int, void *, size_t));
REAL(ssize_t, write, (int, const void *, size_t));
REAL(ssize_t, pread, (int, void *, size_t, off_t));
REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
REAL(off_t, lseek, (int, off_t, int));
REAL(int, ftruncate, (int, off_t));
REAL(int, fsync, (int));
REAL(int, close, (int));
REAL(int, stat, (const char *, struct stat *));
REAL(int, fstat, (int, struct stat *));
REAL(int, fcntl, (int, int, ...));
REAL(int, access, (const char *, int));
REAL(int, unlink, (const char *));

extern "C" {
static int open_impl(const char *p, int flags, mode_t m) {
  if (is_sim(p)) return do_open(p, flags, m);
  return __real_open(p, flags, m);
}
int __wrap_open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return open_impl(p, flags, m); }
int __wrap_open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return open_impl(p, flags, m); }
int __wrap_creat(const char *p, mode_t m) { return open_impl(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd >= FD_BASE ? do_read(fd, b, n, -1) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return fd >= FD_BASE ? do_write(fd, b, n, -1) : __real_write(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return fd >= FD_BASE ? do_read(fd, b, n, o) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return fd >= FD_BASE ? do_write(fd, b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { Busy bg;
  std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
  return __wrap_write(fd, s.data(), s.size());
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { Busy bg;
  size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len;
  std::string s(t, '\0'); ssize_t r = __wrap_read(fd, &s[0], t); if (r <= 0) return r;
  size_t o = 0; for (int i = 0; i < c && o < (size_t)r; i++) { size_t k = std::min((size_t)r - o, v[i].iov_len); memcpy(v[i].iov_base, s.data() + o, k); o += k; }
  return r;
}
off_t __wrap_lseek(int fd, off_t o, int w) { return fd >= FD_BASE ? do_seek(fd, o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_ftruncate(int fd, off_t l) { return fd >= FD_BASE ? do_trunc(fd, l) : __real_ftruncate(fd, l); }
int __wrap_ftruncate64(int fd, off_t l) { return __wrap_ftruncate(fd, l); }
int __wrap_truncate(const char *p, off_t l) {
  if (!is_sim(p)) { errno = EPERM; return -1; }
  int fd = do_open(p, O_RDWR, 0); if (fd < 0) return -1;
  int r = do_trunc(fd, l); do_close(fd); return r;
}
int __wrap_truncate64(const char *p, off_t l) { return __wrap_truncate(p, l); }
int __wrap_fsync(int fd) { return fd >= FD_BASE ? do_fsync(fd) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return fd >= FD_BASE ? do_fsync(fd) : __real_fsync(fd); }
int __wrap_close(int fd) { return fd >= FD_BASE ? do_close(fd) : __real_close(fd); }
int __wrap_stat(const char *p, struct stat *s) { return is_sim(p) ? do_stat(p, s) : __real_stat(p, s); }
int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_lstat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_fstat(int fd, struct stat *s) { return fd >= FD_BASE ? do_fstat(fd, s) : __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat *s) { return __wrap_fstat(fd, s); }
int __wrap_access(const char *p, int m) { Busy bg;
  if (!is_sim(p)) return __real_access(p, m);
  sched_point(2); budget(0);
  if (!files.count(p)) { errno = ENOENT; return -1; }
  return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (fd < FD_BASE) return __real_fcntl(fd, cmd, a);
  FD *d = get_fd(fd);
  if (!d) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return d->flags & (O_ACCMODE | O_APPEND);
  return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return __wrap_fcntl(fd, cmd, a); }
int __wrap_unlink(const char *p) { Busy bg;
  if (!is_sim(p)) return __real_unlink(p);
  if (!files.erase(p)) { errno = ENOENT; return -1; }
  trace("unlink %s", p);
  return 0;
}
int __wrap_rename(const char *a, const char *b) { Busy bg;
  if (!is_sim(a) || !is_sim(b) || !files.count(a)) { errno = ENOENT; return -1; }
  files[b] = files[a]; files.erase(a); trace("rename %s %s", a, b); return 0;
}
int __wrap_flock(int, int) { return 0; }
mode_t __wrap_umask(mode_t m) { mode_t o = cur_umask; cur_umask = m & 0777; return o; }

// clock
int __wrap_gettimeofday(struct timeval *tv, void *) {
  u64 t = 1700000000ULL * 1000000 + (R ? R->now_us : 0);
  tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
time_t __wrap_time(time_t *p) { time_t t = 1700000000 + (R ? R->now_us / 1000000 : 0); if (p) *p = t; return t; }
int __wrap_clock_gettime(clockid_t, struct timespec *ts) {
  u64 t = 1700000000ULL * 1000000 + (R ? R->now_us : 0);
  ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
}

// process end
void __real__exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (!in_lib) { fflush(stdout); __real__exit(c); } char b[64]; snprintf(b, sizeof b, "exit(%d)", c); sim_die(D_EXIT, b); }
void __wrap__exit(int c) { if (!in_lib) __real__exit(c); __wrap_exit(c); }
void __wrap_abort(void) { if (!in_lib) { __real__exit(99); } sim_die(D_ABORT, "abort()"); }
void __wrap___assert_fail(const char *e, const char *, unsigned, const char *fn) {
  char b[300]; snprintf(b, sizeof b, "assert(%s) in %s", e, fn ? fn : "?"); sim_die(D_ASSERT, b);
}

// heap
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}
#include <unordered_map>
#include <new>
u64 live_bytes = 0, peak_bytes = 0, live_blocks = 0;
static std::unordered_map<void *, size_t> *blocks;
static std::unordered_map<void *, size_t> &blk() { if (!blocks) blocks = new std::unordered_map<void *, size_t>(); return *blocks; }
extern "C" void __real_free(void *);
// objects that the C++ classes obtain with new while a call of theirs runs
u64 live_news = 0; bool news_tracked = false;
bool heap_busy;
static std::unordered_map<void *, size_t> *newmap;
static bool alloc_fails(size_t n);
static void *sim_new(size_t n) {
  if (in_lib && !heap_busy && sim_malloc_faults == 2 && alloc_fails(n)) throw std::bad_alloc();
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (news_tracked && in_lib && !heap_busy) { Busy b; if (!newmap) newmap = new std::unordered_map<void *, size_t>(); (*newmap)[p] = n; live_news++; }
  return p;
}
static void sim_delete(void *p) {
  if (!p) return;
  if (live_news && !heap_busy) { Busy b; live_news -= newmap->erase(p); }
  __real_free(p);
}
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
void heap_reset() { Busy g; for (auto &b : blk()) __real_free(b.first); blk().clear(); live_bytes = peak_bytes = live_blocks = 0; if (newmap) newmap->clear(); live_news = 0; g.was = false; }
void heap_forget(void *p);
static void *track(void *p, size_t n) {
  if (p && in_lib) { Busy g; blk()[p] = n; live_bytes += n; live_blocks++; if (live_bytes > peak_bytes) peak_bytes = live_bytes; }
  return p;
}
static void untrack(void *p) {
  Busy g;
  auto i = blk().find(p);
  if (i != blk().end()) { live_bytes -= i->second; live_blocks--; blk().erase(i); }
}
static bool alloc_fails(size_t n) {
  // an absurd request fails the way it would on a real machine
  if (in_lib && n > (1ull << 32)) { errno = ENOMEM; return true; }
  if (!in_lib || !sim_malloc_faults) return false;
  Fault *f = fault_for(C_MALLOC);
  if (f && f->act == A_ERR_ENOMEM) { errno = ENOMEM; return true; }
  return false;
}
int sim_malloc_faults = 0;
extern "C" {
void *__wrap_malloc(size_t n) { return alloc_fails(n) ? nullptr : track(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { return alloc_fails(a * b) ? nullptr : track(__real_calloc(a, b), a * b); }
void *__wrap_realloc(void *p, size_t n) { if (alloc_fails(n)) return nullptr; untrack(p); return track(__real_realloc(p, n), n); }
void __wrap_free(void *p) { if (p) untrack(p); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
}
