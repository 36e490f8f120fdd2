// Command line: run seeds, replay a file, minimise a file.
#include "gen.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <unordered_set>
#undef exit

extern "C" const char *__asan_default_options() {
  return "detect_stack_use_after_return=0:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:max_malloc_fill_size=4194304:malloc_fill_byte=190:handle_abort=1:quarantine_size_mb=8:detect_odr_violation=0:malloc_context_size=4:symbolize=0";
}
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
static double now() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void save_plan(const Plan &p, const char *path, const std::string &cls, const std::string &detail, u64 hash) {
  FILE *f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "filedb-sim-replay 1\nprop %s\nseed %llu\nclass %s\ndetail %s\nhash %016llx\nexplicit_sched %d\n", p.prop.c_str(), (unsigned long long)p.seed, cls.c_str(), detail.c_str(), (unsigned long long)hash, p.explicit_sched ? 1 : 0);
  for (auto &e : p.par) fprintf(f, "par %s %lld\n", e.first.c_str(), (long long)e.second);
  for (auto &o : p.ops) fprintf(f, "op %d %d %s %lld %lld %lld %lld %lld %lld\n", o.id, o.t, o.k >= 1000 ? "x" : k_names[o.k], (long long)o.a[0], (long long)o.a[1], (long long)o.a[2], (long long)o.a[3], (long long)o.a[4], (long long)o.a[5]);
  for (auto &q : p.faults) fprintf(f, "fault %d %s %d %s %lld %d\n", q.op, call_names[q.call], q.nth, act_names[q.act], (long long)q.arg, q.repeat);
  for (auto &s : p.sched) fprintf(f, "sched %llu %d\n", (unsigned long long)s.first, s.second);
  fclose(f);
}
struct Loaded { Plan p; std::string cls, detail; u64 hash = 0; };
static bool load_plan(const char *path, Loaded &l) {
  FILE *f = fopen(path, "r"); if (!f) return false;
  static char line[4096];
  while (fgets(line, sizeof line, f)) {
    char w[64] = ""; int n = 0; sscanf(line, "%63s%n", w, &n);
    std::string k = w; char *rest = line + n; while (*rest == ' ') rest++;
    std::string rs = rest; while (!rs.empty() && (rs.back() == '\n')) rs.pop_back();
    if (k == "prop") l.p.prop = rs;
    else if (k == "seed") l.p.seed = strtoull(rest, 0, 10);
    else if (k == "class") l.cls = rs;
    else if (k == "detail") l.detail = rs;
    else if (k == "hash") l.hash = strtoull(rest, 0, 16);
    else if (k == "explicit_sched") l.p.explicit_sched = atoi(rest) != 0;
    else if (k == "par") { char nm[64]; long long v; sscanf(rest, "%63s %lld", nm, &v); l.p.par[nm] = v; }
    else if (k == "op") {
      Op o; char nm[64]; long long a[6]; sscanf(rest, "%d %d %63s %lld %lld %lld %lld %lld %lld", &o.id, &o.t, nm, a, a + 1, a + 2, a + 3, a + 4, a + 5);
      o.k = -1; for (int i = 0; i < K_NK; i++) if (!strcmp(nm, k_names[i])) o.k = i;
      for (int i = 0; i < 6; i++) o.a[i] = a[i];
      if (o.k >= 0) l.p.ops.push_back(o);
    } else if (k == "fault") {
      Fault q; char c[64], a[64]; long long arg; sscanf(rest, "%d %63s %d %63s %lld %d", &q.op, c, &q.nth, a, &arg, &q.repeat);
      q.arg = arg; q.call = q.act = 0;
      for (int i = 0; i < C_NKINDS; i++) if (!strcmp(c, call_names[i])) q.call = i;
      for (int i = 0; i < A_NACTS; i++) if (!strcmp(a, act_names[i])) q.act = i;
      l.p.faults.push_back(q);
    } else if (k == "sched") { unsigned long long d; int t; sscanf(rest, "%llu %d", &d, &t); l.p.sched.push_back({d, t}); }
  }
  fclose(f);
  return true;
}

// ---------------------------------------------------------------- crash hook
static int crash_fd = 1;
extern "C" void __asan_on_error() {
  char b[256];
  const char *d = __asan_get_report_description();
  int n = snprintf(b, sizeof b, "CRASH class=memory:%s\n", d && *d ? d : "SEGV");
  for (int i = 0; i + 1 < n; i++) if (b[i] == ' ' && i > 5) b[i] = '-';
  b[5] = ' ';
  if (write(crash_fd, b, n) < 0) {}
}
static void mute() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }

struct Outcome { std::string cls, detail; u64 hash = 0; };
// run a plan in a child process
static Outcome probe(const Plan &p0, double limit) {
  Outcome o; int pfd[2]; if (pipe(pfd)) return o;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]); crash_fd = pfd[1]; alarm((unsigned)limit + 1); mute();
    Plan p = p0; Run r; run_once(p, r);
    std::string s = r.violated ? "CLASS " + r.vclass + "\nDETAIL " + r.vdetail + "\n" : "NONE\n";
    char h[40]; snprintf(h, sizeof h, "HASH %016llx\n", (unsigned long long)r.hash); s += h;
    if (write(pfd[1], s.data(), s.size()) < 0) {}
    _exit(0);
  }
  close(pfd[1]);
  std::string s; char b[512]; ssize_t n;
  while ((n = read(pfd[0], b, sizeof b)) > 0) s.append(b, n);
  close(pfd[0]); int st = 0; waitpid(pid, &st, 0);
  size_t i;
  if ((i = s.find("CRASH class=")) != std::string::npos) { o.cls = s.substr(i + 12, s.find('\n', i) - i - 12); o.detail = "memory error in the code under test"; o.hash = 1; }
  else if ((i = s.find("CLASS ")) != std::string::npos) {
    o.cls = s.substr(i + 6, s.find('\n', i) - i - 6);
    i = s.find("DETAIL "); o.detail = s.substr(i + 7, s.find('\n', i) - i - 7);
  } else if (WIFSIGNALED(st)) { char q[40]; snprintf(q, sizeof q, "signal:%d", WTERMSIG(st)); o.cls = q; o.hash = 1; }
  if ((i = s.find("HASH ")) != std::string::npos) o.hash = strtoull(s.c_str() + i + 5, 0, 16);
  return o;
}
static Plan minimise(Plan p, const std::string &cls, double secs, u64 &tries) {
  double end = now() + secs;
  auto same = [&](const Plan &q) { tries++; return probe(q, 20).cls == cls; };
  // list reduction by halves
  auto reduce = [&](auto get_list) {
    size_t n = get_list(p).size();
    for (size_t chunk = n ? (n + 1) / 2 : 0; chunk >= 1 && now() < end;) {
      bool any = false;
      for (size_t at = 0; at < get_list(p).size() && now() < end;) {
        Plan q = p; auto &l = get_list(q);
        size_t e = std::min(at + chunk, l.size());
        l.erase(l.begin() + at, l.begin() + e);
        if (same(q)) { p = q; any = true; } else at += chunk;
      }
      if (chunk == 1 && !any) break;
      chunk = chunk > 1 ? (chunk + 1) / 2 : 1;
      if (chunk == 1 && !any && get_list(p).size() > 400) break;
    }
  };
  for (int round = 0; round < 2 && now() < end; round++) {
    reduce([](Plan &q) -> std::vector<Op> & { return q.ops; });
    reduce([](Plan &q) -> std::vector<Fault> & { return q.faults; });
    reduce([](Plan &q) -> std::vector<std::pair<u64, int>> & { return q.sched; });
    // smaller numbers
    for (size_t i = 0; i < p.ops.size() && now() < end; i++)
      if (p.ops[i].k == K_PUT && p.ops[i].a[3] > 1) for (i64 t : {(i64)1, p.ops[i].a[3] / 2}) { Plan q = p; q.ops[i].a[3] = t; if (same(q)) { p = q; break; } }
  }
  return p;
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> o; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { size_t e = a.find('='); if (e == std::string::npos) o[a.substr(2)] = "1"; else o[a.substr(2, e - 2)] = a.substr(e + 1); } else pos.push_back(a); }
  if (pos.empty()) return 95;
  if (!getenv("FILEDB_SIM_NOASLR")) {     // same addresses in every process: memory errors reproduce exactly
    setenv("FILEDB_SIM_NOASLR", "1", 1);
    int pers = personality(0xffffffff);
    if (pers != -1 && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (!o.count("noise")) mute();
  golden_dir = o.count("golden") ? o["golden"] : getenv("FILEDB_SIM_GOLDEN") ? getenv("FILEDB_SIM_GOLDEN") : "";
  if (pos[0] == "golden") {      // keep the database a fault free plan leaves behind
    Plan p = gen_plan(o["prop"], strtoull(o["seed"].c_str(), 0, 10));
    if (!p.faults.empty()) return 1;
    for (auto &q : p.ops) if (q.k == K_CRASH || q.k == K_UNLINK || q.k == K_CORRUPT || q.k == K_QUOTA) return 1;
    golden_out = o["out"];
    Run r; run_once(p, r);
    return r.violated ? 2 : 0;
  }
  if (pos[0] == "plan") {
    extern bool gen_skip_faults; gen_skip_faults = o.count("skipfaults");
    Plan p = gen_plan(o["prop"], strtoull(o["seed"].c_str(), 0, 10));
    save_plan(p, o["out"].c_str(), "?", "?", 0);
    return 0;
  }
  if (pos[0] == "replay") {
    Loaded l; if (!load_plan(pos[1].c_str(), l)) { printf("cannot read %s\n", pos[1].c_str()); return 94; }
    Run r; run_once(l.p, r, o.count("log"));
    if (o.count("log")) for (auto &s : r.log) printf("  %s\n", s.c_str());
    if (r.violated) printf("RESULT class=%s hash=%016llx detail=%s\n", r.vclass.c_str(), (unsigned long long)r.hash, r.vdetail.c_str());
    else printf("RESULT class=none hash=%016llx\n", (unsigned long long)r.hash);
    return r.violated ? 1 : 0;
  }
  if (pos[0] == "minimise") {
    Loaded l; if (!load_plan(pos[1].c_str(), l)) return 94;
    u64 tries = 0;
    Outcome a = probe(l.p, 60);
    if (a.cls.empty()) { printf("NOT-REPRODUCED\n"); return 0; }
    Plan q = minimise(l.p, a.cls, o.count("secs") ? atof(o["secs"].c_str()) : 40, tries);
    Outcome b = probe(q, 60);
    save_plan(q, pos[2].c_str(), b.cls, b.detail, b.hash);
    printf("MINIMISED ops=%zu faults=%zu sched=%zu from ops=%zu faults=%zu sched=%zu tries=%llu class=%s detail=%s\n", q.ops.size(), q.faults.size(), q.sched.size(), l.p.ops.size(), l.p.faults.size(), l.p.sched.size(), (unsigned long long)tries, b.cls.c_str(), b.detail.c_str());
    return 0;
  }
  if (pos[0] == "run") {
    std::string prop = o["prop"]; u64 base = strtoull(o["base"].c_str(), 0, 10), from = strtoull(o["from"].c_str(), 0, 10), stride = o.count("stride") ? strtoull(o["stride"].c_str(), 0, 10) : 1, count = strtoull(o["count"].c_str(), 0, 10);
    double cap = o.count("cap") ? atof(o["cap"].c_str()) : 1e9, t0 = now();
    int sfd = o.count("status") ? open(o["status"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
    u64 done = 0, nops = 0, steps = 0, events = 0, simus = 0, points = 0, switches = 0;
    std::map<std::string, u64> st; u64 fired[A_NACTS] = {0}, fcall[C_NKINDS] = {0}; u64 with_fault = 0, planned = 0;
    std::unordered_set<u64> distinct, inter, images;
    u64 last = 0;
    int found = 0, maxfound = o.count("maxfound") ? atoi(o["maxfound"].c_str()) : 1;
    for (u64 i = from; i < from + count * stride; i += stride) {
      if (now() - t0 > cap) break;
      u64 seed = mix64(base, i) >> 1;
      if (sfd >= 0) { char b[64]; int n = snprintf(b, sizeof b, "%020llu\n", (unsigned long long)seed); if (pwrite(sfd, b, n, 0) < 0) {} }
      last = seed;
      Plan p = gen_plan(prop, seed);
      Run r; run_once(p, r);
      if (o.count("recheck") && done % 64 == 5) {   // determinism self-check on the fly
        Plan p2 = gen_plan(prop, seed); Run r2; run_once(p2, r2);
        st["determinism_rechecks"]++;
        if (r2.hash != r.hash) { printf("NONDET seed=%llu\n", (unsigned long long)seed); st["nondeterministic"]++; }
      }
      done++; nops += r.nops; steps += r.total_steps; events += r.events; simus += r.now_us; points += r.sched_points; switches += r.switches;
      u64 ft = 0; for (int k = 0; k < A_NACTS; k++) { fired[k] += r.fired[k]; ft += r.fired[k]; }
      for (int k = 0; k < C_NKINDS; k++) fcall[k] += r.fired_call[k];
      if (ft) with_fault++;
      planned += p.faults.size();
      for (auto &e : r.stat) if (e.first != "power_seed") st[e.first] += e.second;
      distinct.insert(r.hash);
      if (r.sched_hash) inter.insert(r.sched_hash);
      if (r.violated) {
        found++;
        std::string f = o["out"] + "/" + prop + "-" + std::to_string(seed) + ".plan";
        if (r.sched_taken.size()) { p.sched = r.sched_taken; p.explicit_sched = true; }
        save_plan(p, f.c_str(), r.vclass, r.vdetail, r.hash);
        printf("FOUND seed=%llu class=%s hash=%016llx file=%s detail=%s\n", (unsigned long long)seed, r.vclass.c_str(), (unsigned long long)r.hash, f.c_str(), r.vdetail.c_str());
        if (found >= maxfound) break;
      }
    }
    std::string cov; cov_bitmap(cov);
    if (o.count("cov")) { FILE *f = fopen(o["cov"].c_str(), "w"); if (f) { fwrite(cov.data(), 1, cov.size(), f); fclose(f); } }
    printf("STATS {\"runs\":%llu,\"ops\":%llu,\"steps\":%llu,\"events\":%llu,\"sim_us\":%llu,\"sched_points\":%llu,\"switches\":%llu,\"distinct\":%zu,\"interleavings\":%zu,\"runs_with_fault\":%llu,\"faults_planned\":%llu,\"edges\":%u,\"edges_total\":%u,\"wall\":%.3f,\"found\":%d,\"last\":%llu",
           (unsigned long long)done, (unsigned long long)nops, (unsigned long long)steps, (unsigned long long)events, (unsigned long long)simus, (unsigned long long)points, (unsigned long long)switches, distinct.size(), inter.size(), (unsigned long long)with_fault, (unsigned long long)planned, cov_count(), cov_total, now() - t0, found, (unsigned long long)last);
    printf(",\"fired\":{"); for (int k = 0, c = 0; k < A_NACTS; k++) if (fired[k]) printf("%s\"%s\":%llu", c++ ? "," : "", act_names[k], (unsigned long long)fired[k]);
    printf("},\"fired_call\":{"); for (int k = 0, c = 0; k < C_NKINDS; k++) if (fcall[k]) printf("%s\"%s\":%llu", c++ ? "," : "", call_names[k], (unsigned long long)fcall[k]);
    printf("},\"stat\":{"); { int c = 0; for (auto &e : st) printf("%s\"%s\":%llu", c++ ? "," : "", e.first.c_str(), (unsigned long long)e.second); }
    printf("}}\n");
    return found ? 1 : 0;
  }
  return 95;
}
