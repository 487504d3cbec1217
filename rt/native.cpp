#include <chrono>
// Native replay environment: the harness runs against the real build of /repo's sources, the real libstdc++ and the
// real file system below a scratch directory; symbolic values, fault choices and thread switches come from a trace.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <thread>
#include <new>
#include <map>
#include <set>
#include <atomic>
#include <cstdarg>
#include <mutex>
#include <exception>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <filesystem>
#include <pthread.h>
#include "sx.h"
struct Ent { int kind; std::string name; uint64_t val; };
static std::vector<Ent> g_tr; static size_t g_pos; static uint64_t g_obsN, g_obsH = 0xcbf29ce484222325ull; static bool g_wantObs; static uint64_t g_expN, g_expH; static bool g_diverged;
static std::string g_dir; static bool g_up;
[[noreturn]] static void finish(int rc, const char *why, const char *msg) { printf("SX_RESULT %s %s\n", why, msg ? msg : ""); fflush(stdout); _exit(rc); }
static uint64_t nextSym(const char *name, uint64_t dflt) {
  while (g_pos < g_tr.size() && g_tr[g_pos].kind != 0) g_pos++;
  if (g_pos >= g_tr.size()) { return dflt; }
  if (g_tr[g_pos].name != name) { g_diverged = true; printf("SX_DIVERGED wanted %s trace has %s\n", name, g_tr[g_pos].name.c_str()); finish(76, "diverged", name); }
  return g_tr[g_pos++].val; }
extern "C" {
uint64_t sx_sym(const char *n, uint32_t w, uint64_t lo, uint64_t hi) { if (lo == hi) return lo; (void)w; uint64_t v = nextSym(n, lo); if (v < lo || v > hi) finish(76, "diverged", n); return v; }
uint32_t sx_choice(const char *n, uint32_t k) { if (k == 0) finish(0, "ok", "empty choice"); if (k == 1) return 0; uint64_t v = nextSym(n, 0); if (v >= k) finish(76, "diverged", n); return (uint32_t)v; }
void sx_assume(bool c) { if (!c) finish(76, "assumption", "assumption does not hold natively"); }
void sx_assert_(bool c, const char *m) { if (!c) finish(77, "violation", m); }
void sx_cover(const char *) {}
void sx_observe(uint64_t v) { g_obsN++; for (int i = 0; i < 8; i++) { g_obsH ^= (v >> (8 * i)) & 0xff; g_obsH *= 0x100000001b3ull; } if (getenv("SX_OBS")) printf("obs %llu\n", (unsigned long long)v); }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_print(const char *m, uint64_t v) { printf("[native] %s %lld\n", m, (long long)v); }
void sx_fail_(const char *m) { finish(77, "violation", m); }
extern "C" int sx_sched_left();
static void done() { if (sx_sched_left()) finish(76, "diverged", "the schedule was not used up"); if (g_wantObs && (g_obsN != g_expN || g_obsH != g_expH)) finish(75, "mismatch", "observations differ from the symbolic execution"); finish(0, "ok", ""); }
void sx_done() { done(); }
void sx_unsupported(const char *m) { finish(76, "diverged", m); }
const char *sx_dir() { return g_dir.c_str(); }
int sx_native() { return 1; }
}
// ---- allocation counting
static std::atomic<int> g_live{0}; static int g_newBudget;
extern "C" uint32_t sx_live_heap() { return (uint32_t)g_live.load(); }
static pthread_t g_newThread;
extern "C" void sx_new_fail(int b) { g_newBudget = b; g_newThread = pthread_self(); } // only the calling thread
static void *xnew(size_t n) { if (g_newBudget > 0 && pthread_self() == g_newThread && sx_choice("newfail", 2)) { g_newBudget--; throw std::bad_alloc(); } g_live++; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void xdel(void *p) { if (p) { g_live--; free(p); } }
void *operator new(size_t n) { return xnew(n); }
void *operator new[](size_t n) { return xnew(n); }
void operator delete(void *p) noexcept { xdel(p); }
void operator delete[](void *p) noexcept { xdel(p); }
void operator delete(void *p, size_t) noexcept { xdel(p); }
void operator delete[](void *p, size_t) noexcept { xdel(p); }
// ---- system calls
static uint32_t g_fops; static int g_fbudget, g_fcount, g_flast, g_fat, g_fatn, g_fatk; static std::set<int> *g_fds;
static int fault(uint32_t mask, uint32_t eintr = 0) {
  static std::atomic_flag m = ATOMIC_FLAG_INIT; struct L { L() { while (m.test_and_set()) ; } ~L() { m.clear(); } } l;
  if (g_fat) { if (!((mask | eintr) & g_fat)) return 0; if (--g_fatn > 0) return 0; int k = g_fat; if (--g_fatk <= 0) g_fat = 0; g_fcount++; g_flast = k; return k; }
  if (g_fbudget <= 0 || !(g_fops & (mask | eintr))) return 0;
  int k[12], n = 0; for (uint32_t b = 1; b <= 2048; b <<= 1) if ((mask | eintr) & g_fops & b) k[n++] = b;
  uint32_t c = sx_choice("fault", n + 1); if (!c) return 0;
  g_fbudget--; g_fcount++; g_flast = k[c - 1]; return k[c - 1]; }
template <class F> static F real(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); return f; }
static bool mine(const char *p) { return g_up && strncmp(p, g_dir.c_str(), g_dir.size()) == 0; }
static bool mineFd(int d) { return g_up && g_fds->count(d); }
extern "C" {
void sx_faults(uint32_t o, int b) { g_fops = o; g_fbudget = b; g_fcount = 0; g_flast = 0; g_fat = 0; }
void sx_fault_at(uint32_t kind, int nth, int times) { g_fbudget = 0; g_fcount = 0; g_flast = 0; g_fatn = nth; g_fatk = times; g_fat = kind; }
int sx_faults_injected() { return g_fcount; }
int sx_last_fault() { return g_flast; }
int sx_file_copy(const char *a, const char *b);
static std::string g_crashPath; static int g_crashAt, g_mutations;
static void mutated() { if (!g_crashAt || ++g_mutations != g_crashAt) return; int e = errno; sx_file_copy(g_crashPath.c_str(), (g_crashPath + ".crash").c_str()); errno = e; }
static int doopen(const char *p, int fl, int mode) {
  static auto r = real<int (*)(const char *, int, ...)>("open64");
  if (mine(p) && fault(SXF_OPEN_ERR)) { errno = EMFILE; return -1; }
  int d = r(p, fl, mode); if (d >= 0 && mine(p)) { g_fds->insert(d); if (fl & O_TRUNC) mutated(); } return d; }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doopen(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doopen(p, fl, m); }
int close(int d) { static auto r = real<int (*)(int)>("close"); bool m = mineFd(d); if (m) g_fds->erase(d); int k = r(d); if (m && fault(SXF_CLOSE_ERR)) { errno = EIO; return -1; } return k; }
ssize_t read(int d, void *b, size_t n) { static auto r = real<ssize_t (*)(int, void *, size_t)>("read");
  if (!mineFd(d)) return r(d, b, n);
  int ft = fault(SXF_READ_ERR | (n > 1 ? SXF_READ_SHORT : 0), SXF_EINTR);
  if (ft == SXF_READ_ERR) { errno = EIO; return -1; } if (ft == SXF_EINTR) { errno = EINTR; return -1; }
  if (ft == SXF_READ_SHORT) { struct stat st; fstat(d, &st); off_t o = lseek(d, 0, SEEK_CUR); size_t k = o >= st.st_size ? 0 : (size_t)(st.st_size - o); if (k > n) k = n; if (k > 1) k /= 2; if (!k) return 0; n = k; }
  return r(d, b, n); }
ssize_t write(int d, const void *b, size_t n) { static auto r = real<ssize_t (*)(int, const void *, size_t)>("write");
  if (!mineFd(d)) return r(d, b, n);
  int ft = fault(SXF_WRITE_ERR | SXF_WRITE_ENOSPC | (n > 1 ? SXF_WRITE_SHORT : 0), SXF_EINTR);
  if (ft == SXF_WRITE_ERR) { errno = EIO; return -1; } if (ft == SXF_WRITE_ENOSPC) { errno = ENOSPC; return -1; } if (ft == SXF_EINTR) { errno = EINTR; return -1; }
  if (ft == SXF_WRITE_SHORT) n /= 2;
  ssize_t k = r(d, b, n); if (k >= 0) mutated(); return k; }
off_t lseek64(int d, off_t o, int w) noexcept { static auto r = real<off_t (*)(int, off_t, int)>("lseek64"); if (mineFd(d) && fault(SXF_SEEK_ERR)) { errno = EIO; return -1; } return r(d, o, w); }
int ftruncate64(int d, off_t n) noexcept { static auto r = real<int (*)(int, off_t)>("ftruncate64"); if (mineFd(d) && fault(SXF_TRUNC_ERR)) { errno = EIO; return -1; } int k = r(d, n); if (!k) mutated(); return k; }
int fstat64(int d, struct stat64 *s) noexcept { static auto r = real<int (*)(int, struct stat64 *)>("fstat64"); if (mineFd(d) && fault(SXF_STAT_ERR)) { errno = EIO; return -1; } return r(d, s); }
int unlink(const char *p) noexcept { static auto r = real<int (*)(const char *)>("unlink"); if (mine(p) && fault(SXF_UNLINK_ERR)) { errno = EIO; return -1; } return r(p); }
static uint64_t g_nofile = 1024, g_nofileHard = 1024;
void sx_set_nofile(uint64_t s, uint64_t h) { g_nofile = s; g_nofileHard = h; }
int getrlimit64(__rlimit_resource_t w, struct rlimit64 *r) noexcept { static auto f = real<int (*)(int, struct rlimit64 *)>("getrlimit64"); if (g_up && (int)w == RLIMIT_NOFILE) { r->rlim_cur = g_nofile; r->rlim_max = g_nofileHard; return 0; } return f(w, r); }
int sx_open_fds() { return (int)g_fds->size(); }
int sx_file_count(const char *d) { int n = 0; std::string b = g_dir + (*d ? "/" : "") + d; std::error_code e; for (auto it = std::filesystem::recursive_directory_iterator(b, e); it != std::filesystem::recursive_directory_iterator(); ++it) n++; return n; }
int64_t sx_file_size(const char *p) { struct stat s; return ::stat(p, &s) ? -1 : s.st_size; }
struct Quiet { uint32_t o; Quiet() : o(g_fops) { g_fops = 0; } ~Quiet() { g_fops = o; } };
int sx_file_byte(const char *p, int64_t o) { FILE *f = fopen(p, "rb"); if (!f) return -1; fseek(f, o, SEEK_SET); int c = fgetc(f); fclose(f); return c; }
int sx_file_put(const char *p, int64_t o, uint8_t v) { FILE *f = fopen(p, "r+b"); if (!f) f = fopen(p, "w+b"); fseek(f, o, SEEK_SET); fputc(v, f); fclose(f); return 0; }
static bool slurp(const char *p, std::string &s) { FILE *f = fopen(p, "rb"); if (!f) return false; char b[4096]; size_t k; s.clear(); while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return true; }
int sx_file_copy(const char *a, const char *b) { std::string s; if (!slurp(a, s)) return -1; FILE *f = fopen(b, "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); return 0; }
int sx_file_same(const char *a, const char *b) { std::string s, t; bool x = slurp(a, s), y = slurp(b, t); return x == y && s == t; }
void sx_crash_arm(const char *path, int n) { g_crashPath = path; g_crashAt = n; g_mutations = 0; }
int sx_mutations() { return g_mutations; }
int sx_file_hole(const char *p, int64_t at, int64_t len) { Quiet q; std::string s; if (!slurp(p, s)) return -1; FILE *f = fopen(p, "r+b"); static auto r = real<int (*)(int, off_t)>("ftruncate64"); int k = r(fileno(f), at) || r(fileno(f), (off_t)s.size() + len); fseeko(f, at + len, SEEK_SET); fwrite(s.data() + at, 1, s.size() - at, f); fclose(f); return k; }
int sx_file_trunc(const char *p, int64_t n) { FILE *f = fopen(p, "r+b"); if (!f) f = fopen(p, "w+b"); fflush(f); static auto r = real<int (*)(int, off_t)>("ftruncate64"); int k = r(fileno(f), n); fclose(f); return k; }
}
static int g_rndMode; static uint32_t g_rndRange = 4, g_rnd; static unsigned g_cpus = 1;
extern "C" void sx_random_mode(int m, uint32_t r) { g_rndMode = m; g_rndRange = r; }
extern "C" void sx_set_cpus(unsigned n) { g_cpus = n; }
static uint64_t g_ticks = 1000000, g_tickStep = 1;
extern "C" void sx_clock_step(uint64_t us) { g_tickStep = us; }
std::chrono::_V2::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { uint64_t t = __atomic_add_fetch(&g_ticks, g_tickStep, __ATOMIC_SEQ_CST); return time_point(duration((int64_t)t * 1000)); } // the same clock as in the symbolic run

namespace std {
random_device::result_type random_device::_M_getval() { if (g_rndMode) return sx_choice("rnd", g_rndRange); return g_rnd++ * 2654435761u + 12345; }
unsigned thread::hardware_concurrency() noexcept { return g_cpus; }
}
#ifndef SX_REAL_Z
#include "zstub.inc"
#else
extern "C" void sx_compress_mode(int) {}
#endif
extern "C" void sx_sched_load(const std::vector<std::pair<int, uint64_t>> *sched);
static void term() { const char *m = "std::terminate"; std::string w; if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception &x) { w = std::string("uncaught exception: ") + x.what(); } catch (...) { w = "uncaught exception"; } m = w.c_str(); } finish(78, "violation", m); }
int main(int argc, char **argv) {
  g_fds = new std::set<int>();
  g_dir = getenv("SX_SCRATCH") ? getenv("SX_SCRATCH") : "/nonexistent";
  if (argc > 1) { FILE *f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 70; } char line[4096];
    std::vector<std::pair<int, uint64_t>> sch;
    while (fgets(line, sizeof line, f)) { char nm[512]; unsigned long long v, w; if (sscanf(line, "sym %511s %llu", nm, &v) == 2) g_tr.push_back({0, nm, v}); else if (sscanf(line, "pre %llu", &v) == 1) sch.push_back({1, v}); else if (sscanf(line, "blk %llu", &v) == 1) sch.push_back({2, v}); else if (sscanf(line, "obs %llu %llu", &v, &w) == 2) { g_wantObs = true; g_expN = v; g_expH = w; } }
    fclose(f); sx_sched_load(&sch); }
  std::set_terminate(term);
  g_up = true;
  harness();
  done();
}
