// Trace, violations, simulated process death, coverage and step budget.
#include "core.h"
#include <stdarg.h>
#include <unistd.h>

Run *R = nullptr;
const char *death_names[] = {"none", "kill", "power", "exit", "abort", "assert", "hang", "deadlock", "stop"};

u64 hash_bytes(const void *p, size_t n, u64 h) {
  const unsigned char *b = (const unsigned char *)p;
  while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; b += 8; n -= 8; }
  for (size_t i = 0; i < n; i++) { h = (h ^ b[i]) * 0x100000001b3ULL; }
  h ^= h >> 32;
  return h;
}
void trace(const char *fmt, ...) {
  Busy bg;
  char buf[512];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  R->events++;
  R->hash = hash_bytes(buf, n, R->hash);
  if (R->keep_log) R->log.push_back(buf);
}
void trace_u64(u64 v) { R->hash = mix64(R->hash, v); R->events++; }
void violate(const char *cls, const char *fmt, ...) {
  Busy bg;
  if (R->violated) return;
  char buf[700];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  R->violated = true; R->vclass = cls; R->vdetail = buf;
  trace("VIOLATION %s %s", cls, buf);
}
void sched_die_from_fiber();
void sim_die(int why, const char *msg) {
  Busy bg;
  if (!R || !R->death_armed) { fprintf(stdout, "SIM-INTERNAL death outside a run: %d %s\n", why, msg); fflush(stdout); _exit(97); }
  in_lib = false;
  R->death = why; R->death_msg = msg;
  trace("death %s %s", death_names[why], msg);
  sched_die_from_fiber();       // does not return when on a fiber
  R->death_armed = false;
  longjmp(R->death_jmp, 1);
}

// ---------------------------------------------------------------- coverage
static unsigned char covmap[1 << 17];
unsigned cov_total = 0;
unsigned cov_count() { unsigned n = 0; for (unsigned i = 1; i <= cov_total && i < sizeof covmap; i++) n += covmap[i] != 0; return n; }
void cov_bitmap(std::string &s) { s.assign((const char *)covmap, std::min<size_t>(cov_total + 1, sizeof covmap)); }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (uint32_t *p = a; p < b; p++) *p = ++cov_total;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (*g < sizeof covmap) covmap[*g] = 1;
  if (!R || !in_lib) return;
  R->total_steps++;
  if (++R->steps > R->step_limit && R->step_limit) sim_die(D_HANG, "step budget exceeded");
}
#define MEMCB(name) extern "C" void name(void *) { if (sched_active && in_lib) sched_point(1); }
MEMCB(__sanitizer_cov_load1) MEMCB(__sanitizer_cov_load2) MEMCB(__sanitizer_cov_load4) MEMCB(__sanitizer_cov_load8) MEMCB(__sanitizer_cov_load16)
MEMCB(__sanitizer_cov_store1) MEMCB(__sanitizer_cov_store2) MEMCB(__sanitizer_cov_store4) MEMCB(__sanitizer_cov_store8) MEMCB(__sanitizer_cov_store16)

// ---------------------------------------------------------------- the library's variables
extern char __start_ffdbdata[] __attribute__((weak)), __stop_ffdbdata[] __attribute__((weak)), __start_ffdbbss[] __attribute__((weak)), __stop_ffdbbss[] __attribute__((weak));
__attribute__((no_sanitize("address"))) void lib_vars_reset() {
  static char *copy[2]; static bool have;
  char *a[2] = {__start_ffdbdata, __start_ffdbbss}, *b[2] = {__stop_ffdbdata, __stop_ffdbbss};
  for (int i = 0; i < 2; i++) {
    if (!a[i] || a[i] == b[i]) continue;
    if (!have) { copy[i] = new char[b[i] - a[i]]; for (size_t k = 0; k < (size_t)(b[i] - a[i]); k++) ((volatile char *)copy[i])[k] = a[i][k]; }
    else for (size_t k = 0; k < (size_t)(b[i] - a[i]); k++) ((volatile char *)a[i])[k] = copy[i][k];
  }
  have = true;
}
