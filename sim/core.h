// Shared declarations of the filedb deterministic simulator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <setjmp.h>
#include <algorithm>

typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- randomness
// Every random choice of a run comes from one 64 bit seed through this.
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(unsigned permille) { return below(1000) < permille; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static inline u64 mix64(u64 a, u64 b) {
  Rng r(a * 0x2545F4914F6CDD1DULL ^ (b + 0x632BE59BD9B4E019ULL));
  return r.next();
}

// ---------------------------------------------------------------- plan
// A plan is one fully explicit simulated execution: parameters, operations,
// faults and (for threaded parts) the schedule.
enum CallKind { C_OPEN, C_READ, C_WRITE, C_SEEK, C_TRUNC, C_FSYNC, C_CLOSE, C_STAT, C_MALLOC, C_ANYIO, C_NKINDS };
extern const char *call_names[C_NKINDS];
enum FaultAct {
  A_ERR_EIO, A_ERR_ENOSPC, A_ERR_EMFILE, A_ERR_ENOMEM,
  A_SHORT,          // write or read only part, arg = bytes (mod len)
  A_KILL_BEFORE,    // process killed before the call takes effect
  A_KILL_TORN,      // process killed with arg bytes of the write done
  A_KILL_AFTER,     // process killed right after the call
  A_POWER_BEFORE,   // power lost before the call: only durable + a subset of pending survives (arg = subset seed)
  A_POWER_AFTER,
  A_NACTS
};
extern const char *act_names[A_NACTS];
struct Fault {
  int op;       // op id during which it fires
  int call;     // CallKind
  int nth;      // n-th call of this kind within the op (0 based)
  int act;      // FaultAct
  i64 arg;
  int repeat;   // additional consecutive calls of the kind that fail too (same op and later), errors only
};
struct Op {
  int id = 0;
  int t = 0;                // thread (0 = main)
  int k = 0;                // kind
  i64 a[6] = {0, 0, 0, 0, 0, 0};
};
struct Plan {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, i64> par;
  std::vector<Op> ops;
  std::vector<Fault> faults;
  std::vector<std::pair<u64, int>> sched;  // decision index -> thread chosen
  bool explicit_sched = false;             // replay: use only sched, no random choices
  i64 get(const char *n, i64 d = 0) const { auto i = par.find(n); return i == par.end() ? d : i->second; }
  void set(const char *n, i64 v) { par[n] = v; }
};

// ---------------------------------------------------------------- run state
enum Death { D_NONE = 0, D_KILL, D_POWER, D_EXIT, D_ABORT, D_ASSERT, D_HANG, D_DEADLOCK, D_STOP };
extern const char *death_names[];

struct Run {
  Plan *plan = nullptr;
  // trace
  u64 hash = 0;
  u64 events = 0;
  bool keep_log = false;
  std::vector<std::string> log;
  // per op call counters
  int cur_op = -1;
  int calls[C_NKINDS];
  std::vector<char> fault_done;
  std::vector<int> fault_left;
  // profile (recorded when profiling)
  std::map<int, std::vector<int>> prof;   // op -> count per call kind
  bool profiling = false;
  // fault statistics
  u64 fired[A_NACTS];
  u64 fired_call[C_NKINDS];
  // budget
  u64 steps = 0, step_limit = 0, total_steps = 0;
  // death
  int death = D_NONE;
  std::string death_msg;
  bool death_armed = false;
  jmp_buf death_jmp;
  // simulated clock (microseconds)
  u64 now_us = 0;
  // result
  bool violated = false;
  std::string vclass, vdetail;
  // misc statistics
  std::map<std::string, u64> stat;
  u64 nops = 0, progress = 0;
  u64 sched_hash = 0; u64 switches = 0; u64 sched_points = 0;
  std::vector<std::pair<u64, int>> sched_taken;   // decisions of this run, for the replay file
};
extern Run *R;

void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void trace_u64(u64 v);
// record a violation (first one wins)
void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// the simulated process ends here
[[noreturn]] void sim_die(int why, const char *msg);
u64 hash_bytes(const void *p, size_t n, u64 h = 0xcbf29ce484222325ULL);

// ---------------------------------------------------------------- simulated disk
void fs_reset();
void fs_crash(bool power, u64 subset_seed);    // all descriptors vanish
void fs_drop_process();                        // close all descriptors
bool fs_exists(const std::string &p);
std::string fs_content(const std::string &p);
std::string fs_read_at(const std::string &p, u64 off, size_t n);
u64 fs_size(const std::string &p);
void fs_poke(const std::string &p, u64 off, const std::string &d);   // also durable
void fs_copy(const std::string &a, const std::string &b);
void fs_set_quota(u64 q);
u64 fs_used();
void fs_set_content(const std::string &p, const std::string &c);   // also durable
void fs_unlink(const std::string &p);
u64 fs_hash(const std::string &p);
int fs_open_count();
int fs_umask();                       // file creation mask of the simulated process (022 at its start)
int fs_mode(const std::string &p);    // permission bits of a file, -1 without it
u64 fs_mutations(const std::string &p);        // number of mutating calls that reached the file
bool fs_all_durable(const std::string &p);     // nothing pending since the last fsync
void fs_make_durable();                        // everything pending becomes durable (quiescent time passes)
extern int sim_malloc_faults;      // 1: C allocations of the library may fail, 2: also those with new
extern bool in_lib;                            // code under test is running
void heap_reset();
void lib_vars_reset();          // the variables of the library as a new process has them
// while the simulator works on its own account
extern bool heap_busy;
struct Busy { bool was = heap_busy; Busy() { heap_busy = true; } ~Busy() { heap_busy = was; } };
extern u64 live_bytes, peak_bytes, live_blocks, live_news; extern bool news_tracked;

// ---------------------------------------------------------------- scheduler
struct ThreadBody { virtual void run(int tid) = 0; };
// Run the n bodies as simulated threads 1..n until all finish.  Returns D_NONE
// or the reason the simulated process died.
int sched_run(std::vector<ThreadBody *> &bodies);
extern bool sched_active;
void sched_point(int kind);      // possible preemption
void sched_reset();

// ---------------------------------------------------------------- coverage
extern unsigned cov_total;
unsigned cov_count();
void cov_bitmap(std::string &s);
