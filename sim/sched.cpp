// Seeded scheduler: simulated threads are fibers, every pthread primitive of
// the code under test is simulated here, and every switch is a decision taken
// from the run's random stream or from an explicit schedule.
#include "core.h"
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

bool sched_active = false;
enum St { S_READY, S_MUTEX, S_COND, S_SLEEP, S_RW, S_DONE };
struct Fiber {
  ucontext_t ctx;
  char *stack = nullptr;
  int st = S_READY;
  void *obj = nullptr;       // what it waits for
  void *mtx = nullptr;       // mutex to retake after a condition wait
  u64 wake = 0; bool timed_out = false;
  int err = 0; bool lib = false;
  void *fake = nullptr;
  ThreadBody *body = nullptr;
  u64 prio = 0;
  u64 points = 0;
};
static const size_t STK = 1 << 20;
static std::vector<Fiber> fb;       // index = tid, 0 = main
static std::vector<char *> stack_pool;
static int cur = 0;
static ucontext_t main_ctx;
static void *main_fake = nullptr; static const void *main_bottom; static size_t main_size;
static u64 npoint = 0;
static u64 since_switch = 0;
static std::map<u64, int> explicit_map;
static Rng srng(1);
static unsigned p_mem, p_sync, p_spur; static int mode; static std::vector<u64> change_points; static u64 low_prio;

struct Mtx { int owner = -1; int cnt = 0; int type = 0; };
struct RW { int writer = -1; int readers = 0; };
// tables of the scheduler itself, no memory of the library
extern "C" void *__real_malloc(size_t); extern "C" void __real_free(void *);
template <class T> struct Own {
  typedef T value_type;
  Own() {} template <class U> Own(const Own<U> &) {}
  T *allocate(size_t n) { return (T *)__real_malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { __real_free(p); }
  template <class U> bool operator==(const Own<U> &) const { return true; }
  template <class U> bool operator!=(const Own<U> &) const { return false; }
};
template <class V> using Table = std::map<void *, V, std::less<void *>, Own<std::pair<void *const, V>>>;
static Table<Mtx> mtx;
static Table<RW> rws;
static Table<int> objid;
static int oid(void *p) { auto i = objid.find(p); if (i != objid.end()) return i->second; int n = (int)objid.size() + 1; objid[p] = n; return n; }

void sched_reset() { mtx.clear(); rws.clear(); objid.clear(); cur = 0; sched_active = false; fb.clear(); }

static void to_main() {
  Fiber &f = fb[cur];
  f.err = errno; f.lib = in_lib;
  int me = cur;
  __sanitizer_start_switch_fiber(&f.fake, main_bottom, main_size);
  swapcontext(&f.ctx, &main_ctx);
  __sanitizer_finish_switch_fiber(fb[me].fake, &main_bottom, &main_size);
  errno = fb[me].err; in_lib = fb[me].lib;
}
void sched_die_from_fiber() {
  if (!sched_active || cur == 0) return;
  Fiber &f = fb[cur];
  f.st = S_DONE;
  __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
  setcontext(&main_ctx);
  __builtin_unreachable();
}
static void entry() {
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
  int me = cur;
  in_lib = false;
  fb[me].body->run(me);
  fb[me].st = S_DONE;
  in_lib = false;
  __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
  setcontext(&main_ctx);
}
static bool runnable(int t) {
  Fiber &f = fb[t];
  switch (f.st) {
    case S_READY: return true;
    case S_MUTEX: { auto i = mtx.find(f.obj); return i == mtx.end() || i->second.owner < 0; }
    case S_RW: return true;    // rechecks itself
    case S_SLEEP: return R->now_us >= f.wake;
    case S_COND: return f.wake && R->now_us >= f.wake;
  }
  return false;
}
static void note_choice(u64 d, int v) { if (!R->plan->explicit_sched) R->sched_taken.push_back({d, v}); }

// next thread when `from` can not or should not continue
static int choose(int from, bool forced) {
  std::vector<int> r;
  for (int t = 1; t < (int)fb.size(); t++) if ((t != from || forced) && runnable(t)) r.push_back(t);
  if (r.empty()) return -1;
  u64 d = npoint;
  if (R->plan->explicit_sched) {
    auto i = explicit_map.find(d);
    if (i != explicit_map.end()) for (int t : r) if (t == i->second) return t;
    return r[0];
  }
  int pick;
  if (mode == 1) { pick = r[0]; for (int t : r) if (fb[t].prio > fb[pick].prio) pick = t; }
  else pick = r[srng.below(r.size())];
  note_choice(d, pick);
  return pick;
}
// leave the processor; main picks the next
static int next_tid = 0;
void sched_point(int kind) {
  if (!sched_active || cur == 0) return;
  npoint++;
  Fiber &me = fb[cur];
  me.points++;
  R->sched_points++;
  R->steps++;
  if (R->steps > R->step_limit && R->step_limit) sim_die(D_HANG, "no progress within the step budget");
  bool sw = false;
  if (kind != 1) { R->sched_hash = mix64(R->sched_hash, cur * 16 + kind); }
  if (R->plan->explicit_sched) {
    auto i = explicit_map.find(npoint);
    if (i != explicit_map.end()) {
      if (i->second >= 1000) {          // spurious wakeup
        int t = i->second - 1000;
        if (t < (int)fb.size() && fb[t].st == S_COND) { fb[t].st = S_MUTEX; fb[t].obj = fb[t].mtx; R->stat["spurious_wakeups"]++; trace("spurious %d", t); }
      } else if (i->second != cur && i->second < (int)fb.size() && runnable(i->second)) { next_tid = i->second; sw = true; }
    }
    if (!sw && ++since_switch > 20000) { int t = choose(cur, false); if (t > 0) { next_tid = t; sw = true; } }
  } else {
    if (p_spur && kind != 1 && srng.chance(p_spur)) {
      std::vector<int> w; for (int t = 1; t < (int)fb.size(); t++) if (fb[t].st == S_COND) w.push_back(t);
      if (w.size()) {
        int t = w[srng.below(w.size())];
        note_choice(npoint, 1000 + t);
        fb[t].st = S_MUTEX; fb[t].obj = fb[t].mtx;
        R->stat["spurious_wakeups"]++;
        trace("spurious %d", t);
        return;
      }
    }
    if (mode == 1) {                    // priority based: highest runs, demoted at the change points
      bool demote = ++since_switch > 20000;
      for (u64 c : change_points) if (c == npoint) demote = true;
      if (demote) { me.prio = --low_prio; since_switch = 0; }
      int best = cur;
      for (int t = 1; t < (int)fb.size(); t++) if (t != cur && runnable(t) && fb[t].prio > fb[best].prio) best = t;
      if (best != cur) { next_tid = best; note_choice(npoint, best); sw = true; }
    } else {
      bool want = ++since_switch > 20000;
      if (!want) want = kind == 1 ? srng.below(100000) < p_mem : srng.chance(p_sync);
      if (want) { int t = choose(cur, false); if (t > 0) { next_tid = t; sw = true; } }
    }
  }
  if (sw) {
    since_switch = 0;
    R->switches++;
    trace("switch %d->%d", cur, next_tid);
    to_main();
  }
}
static void resumed(int t) {
  Fiber &f = fb[t];
  if (f.st == S_MUTEX) { mtx[f.obj].owner = t; mtx[f.obj].cnt = 1; f.st = S_READY; }
  else if (f.st == S_COND) { f.timed_out = true; f.st = S_READY; }
  else if (f.st == S_SLEEP || f.st == S_RW) f.st = S_READY;
}
// the running thread blocks until runnable again
static void block() {
  npoint++;
  R->steps++;
  int t = choose(cur, true);
  if (t == cur) { resumed(t); return; }
  if (t < 0) {
    // let simulated time pass to the next timer
    u64 w = ~0ull;
    for (size_t i = 1; i < fb.size(); i++) if ((fb[i].st == S_SLEEP || (fb[i].st == S_COND && fb[i].wake)) && fb[i].wake < w) w = fb[i].wake;
    if (w == ~0ull) {
      std::string s = "all threads blocked:";
      for (size_t i = 1; i < fb.size(); i++) { char b[64]; snprintf(b, sizeof b, " t%zu=%s", i, fb[i].st == S_DONE ? "done" : fb[i].st == S_COND ? "cond" : fb[i].st == S_MUTEX ? "mutex" : "?"); s += b; }
      sim_die(D_DEADLOCK, s.c_str());
    }
    if (R->now_us < w) R->now_us = w;
    t = choose(cur, true);
    if (t == cur) { resumed(t); return; }
  }
  next_tid = t;
  since_switch = 0;
  R->switches++;
  trace("block %d->%d", cur, t);
  to_main();
}

int sched_run(std::vector<ThreadBody *> &bodies) {
  Plan &p = *R->plan;
  fb.clear(); fb.resize(bodies.size() + 1);
  npoint = 0; since_switch = 0;
  explicit_map.clear();
  for (auto &e : p.sched) explicit_map[e.first] = e.second;
  srng = Rng(mix64(p.seed, 0x5ced));
  mode = (int)p.get("sched_mode", 0);
  p_mem = (unsigned)p.get("p_mem", 0); p_sync = (unsigned)p.get("p_sync", 250); p_spur = (unsigned)p.get("p_spur", 0);
  change_points.clear();
  if (mode == 1) { int n = (int)p.get("pct_depth", 3); u64 span = (u64)p.get("pct_span", 5000); for (int i = 0; i < n; i++) change_points.push_back(1 + srng.below(span)); }
  low_prio = 1000;
  for (size_t i = 1; i < fb.size(); i++) {
    Fiber &f = fb[i];
    if (stack_pool.size() < i) stack_pool.push_back((char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    f.stack = stack_pool[i - 1];
    ASAN_UNPOISON_MEMORY_REGION(f.stack, STK);
    f.body = bodies[i - 1];
    f.prio = 2000 + srng.below(100000);
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STK; f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, entry, 0);
  }
  sched_active = true;
  bool saved_armed = R->death_armed;
  R->death_armed = true;
  R->death = D_NONE;
  cur = 1; next_tid = 1;
  {
    // first thread by choice as well
    npoint++;
    int t = choose(0, true); next_tid = t < 0 ? 1 : t;
  }
  for (;;) {
    int t = next_tid;
    if (t <= 0 || fb[t].st == S_DONE || !runnable(t)) {
      cur = 0; npoint++;
      t = choose(0, true);
      if (t < 0) {
        bool all = true; u64 w = ~0ull;
        for (size_t i = 1; i < fb.size(); i++) { if (fb[i].st != S_DONE) all = false; if ((fb[i].st == S_SLEEP || (fb[i].st == S_COND && fb[i].wake)) && fb[i].wake < w) w = fb[i].wake; }
        if (all) break;
        if (w != ~0ull) { R->now_us = w; continue; }
        R->death = D_DEADLOCK; R->death_msg = "threads blocked for ever after another finished"; trace("death deadlock"); break;
      }
    }
    cur = t; next_tid = 0;
    Fiber &f = fb[t];
    resumed(t);
    __sanitizer_start_switch_fiber(&main_fake, f.stack, STK);
    swapcontext(&main_ctx, &f.ctx);
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    in_lib = false;
    if (R->death != D_NONE) break;
  }
  sched_active = false; cur = 0; in_lib = false;
  R->death_armed = saved_armed;
  return R->death;
}

// ---------------------------------------------------------------- pthread primitives
static int self_id() { return sched_active ? cur : 0; }
static void m_lock(void *m) {
  sched_point(3);
  Mtx &x = mtx[m];
  int me = self_id();
  if (x.owner == me && x.type == PTHREAD_MUTEX_RECURSIVE) { x.cnt++; return; }
  if (x.owner < 0) { x.owner = me; x.cnt = 1; return; }
  if (!sched_active || cur == 0) sim_die(D_DEADLOCK, "lock held for ever by a finished thread or by this thread");
  fb[cur].st = S_MUTEX; fb[cur].obj = m;
  R->stat["mutex_blocks"]++;
  while (fb[cur].st == S_MUTEX) {
    if (x.owner < 0) { x.owner = cur; x.cnt = 1; fb[cur].st = S_READY; return; }
    block();
  }
}
static void m_unlock(void *m) {
  Mtx &x = mtx[m];
  if (x.cnt > 1) { x.cnt--; return; }
  x.owner = -1; x.cnt = 0;
  sched_point(4);
}
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  Mtx x; if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); x.type = t; }
  mtx[m] = x; memset(m, 0, sizeof *m); return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { memset(m, 0, sizeof *m); mtx.erase(m); return 0; }
static inline void touch(void *p) { *(volatile char *)p; }     // use after free of a primitive is still seen
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { touch(m); m_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  touch(m); sched_point(3); Mtx &x = mtx[m];
  if (x.owner < 0) { x.owner = self_id(); x.cnt = 1; return 0; }
  return EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { touch(m); m_unlock(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { memset(c, 0, sizeof *c); return 0; }
static int c_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 until) {
  touch(c); touch(m);
  if (!sched_active || cur == 0) {
    if (until) { R->now_us = until; return ETIMEDOUT; }
    sim_die(D_DEADLOCK, "condition wait with nobody to signal");
  }
  sched_point(5);
  Fiber &f = fb[cur];
  R->stat["cond_waits"]++;
  Mtx &x = mtx[m]; x.owner = -1; x.cnt = 0;
  f.st = S_COND; f.obj = c; f.mtx = m; f.wake = until; f.timed_out = false;
  int me = cur;
  while (fb[me].st == S_COND) block();
  bool to = fb[me].timed_out;
  fb[me].wake = 0;
  if (to) m_lock(m);
  else if (fb[me].st == S_MUTEX) { while (fb[me].st == S_MUTEX) { Mtx &y = mtx[m]; if (y.owner < 0) { y.owner = me; y.cnt = 1; fb[me].st = S_READY; break; } block(); } }
  return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return c_wait(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  i64 u = ((i64)ts->tv_sec - 1700000000) * 1000000 + ts->tv_nsec / 1000;
  if (u <= (i64)R->now_us) u = R->now_us + 1;
  return c_wait(c, m, (u64)u);
}
static void wake_some(void *c, bool all) {
  std::vector<int> w;
  for (size_t t = 1; t < fb.size(); t++) if (fb[t].st == S_COND && fb[t].obj == c) w.push_back((int)t);
  if (w.empty()) return;
  if (!all) {
    int t = w[0];
    if (w.size() > 1) {
      npoint++;
      if (R->plan->explicit_sched) { auto i = explicit_map.find(npoint); if (i != explicit_map.end()) for (int q : w) if (q == i->second) t = q; }
      else { t = w[srng.below(w.size())]; note_choice(npoint, t); }
    }
    w.assign(1, t);
  }
  for (int t : w) { fb[t].st = S_MUTEX; fb[t].obj = fb[t].mtx; fb[t].wake = 0; }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { sched_point(6); touch(c); if (sched_active) wake_some(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { sched_point(6); touch(c); if (sched_active) wake_some(c, true); return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(1000 + self_id()); }

int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { rws[l] = RW(); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { rws.erase(l); return 0; }
static void rw_wait(void *l) {
  if (!sched_active || cur == 0) sim_die(D_DEADLOCK, "rwlock held for ever");
  (void)l; fb[cur].st = S_RW; int me = cur;
  // counted like any other wait; livelock is caught by the step budget
  R->steps += 50; block(); fb[me].st = S_READY;
  if (R->steps > R->step_limit && R->step_limit) sim_die(D_DEADLOCK, "rwlock never released");
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { sched_point(3); while (rws[l].writer >= 0) rw_wait(l); rws[l].readers++; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { sched_point(3); while (rws[l].writer >= 0 || rws[l].readers) rw_wait(l); rws[l].writer = self_id(); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) { RW &x = rws[l]; if (x.writer >= 0) x.writer = -1; else if (x.readers) x.readers--; sched_point(4); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int) { mtx[(void *)l] = Mtx(); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *l) { mtx.erase((void *)l); return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { m_lock((void *)l); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { m_unlock((void *)l); return 0; }

static void sim_sleep(u64 us) {
  if (!sched_active || cur == 0) { R->now_us += us; return; }
  fb[cur].st = S_SLEEP; fb[cur].wake = R->now_us + us; int me = cur;
  while (fb[me].st == S_SLEEP && R->now_us < fb[me].wake) block();
  fb[me].st = S_READY;
}
int __wrap_usleep(useconds_t u) { sim_sleep(u); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep((u64)s * 1000000); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { sim_sleep((u64)t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
int __wrap_sched_yield(void) { if (sched_active && cur) { int t = choose(cur, false); if (t > 0) { npoint++; next_tid = t; R->switches++; to_main(); } } return 0; }
}
