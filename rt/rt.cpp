// Runtime for symbolic execution: C++ ABI, the parts of libstdc++ that live in the shared library, libc, and an
// in-memory file system.  Compiled to bitcode and linked with TPIE's own sources and one harness.
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <cxxabi.h>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <random>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <chrono>
#include <cstdarg>
#include <cmath>
#include <sx_ios.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <sys/time.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <dirent.h>
#include "sx.h"
extern "C" {
void sx_raise(void *exc) __attribute__((noreturn));
uint32_t sx_thread_create(void *(*fn)(void *), void *arg);
uint32_t sx_thread_self();
void *sx_thread_join(uint32_t t);
void sx_race_sync(void *p, int release);               // an ordering the runtime provides (race detection)
void sx_race_access(const void *p, size_t n, int write); // an access the runtime makes for the program
void *sx_raw_malloc(size_t n);
void sx_raw_free(void *p);
}
// ------------------------------------------------------------------ libc
static thread_local int t_errno;
extern "C" {
int *__errno_location() { return &t_errno; }
char __libc_single_threaded = 0;
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b || !*a) return (int)(unsigned char)*a - (int)(unsigned char)*b; } return 0; }
void *sx_memchr(const void *p, int c, size_t n) __asm__("memchr");
void *sx_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void *)(q + i); return 0; }
char *sx_strchr(const char *p, int c) __asm__("strchr");
char *sx_strchr(const char *p, int c) { for (;; p++) { if (*p == (char)c) return (char *)p; if (!*p) return 0; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
long __isoc23_strtol(const char *s, char **e, int base) { long v = 0; bool neg = false; while (*s == ' ') s++; if (*s == '-') { neg = true; s++; } while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (e) *e = (char *)s; (void)base; return neg ? -v : v; }
unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long)__isoc23_strtol(s, e, base); }
int x_atoi(const char *s) __asm__("atoi");
int x_atoi(const char *s) { return (int)strtol(s, 0, 10); }
char *strerror(int) { static char m[] = "error"; return m; }
int sprintf(char *b, const char *, ...) { b[0] = '?'; b[1] = 0; return 1; }
int snprintf(char *b, size_t n, const char *, ...) { if (n > 1) { b[0] = '?'; b[1] = 0; } return 1; }
int vsnprintf(char *b, size_t n, const char *, va_list) { if (n > 1) { b[0] = '?'; b[1] = 0; } return 1; }
int printf(const char *, ...) { return 0; }
int fprintf(FILE *, const char *, ...) { return 0; }
int puts(const char *) { return 0; }
int x_putchar(int c) __asm__("putchar");
int x_putchar(int c) { return c; }
size_t fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int fputs(const char *, FILE *) { return 0; }
int fputc(int c, FILE *) { return c; }
int fflush(FILE *) { return 0; }
FILE *stderr = 0, *stdout = 0;
int backtrace(void **, int) { return 0; }
char **backtrace_symbols(void *const *, int) { return 0; }
char *getenv(const char *) { return 0; }
long sysconf(int n) { return n == _SC_CLK_TCK ? 100 : n == _SC_PAGESIZE ? 4096 : 2; }
static uint64_t g_ticks = 1000000, g_tickStep = 1;
void sx_clock_step(uint64_t us) { g_tickStep = us; }
clock_t clock() { return (clock_t)(g_ticks += 10); }
clock_t times(struct tms *t) { if (t) { t->tms_utime = 0; t->tms_stime = 0; t->tms_cutime = 0; t->tms_cstime = 0; } return (clock_t)(g_ticks += 1); }
time_t time(time_t *t) { time_t v = 1700000000; if (t) *t = v; return v; }
struct tm *localtime(const time_t *) { static struct tm t; t.tm_year = 120; t.tm_mon = 1; t.tm_mday = 2; t.tm_hour = 3; t.tm_min = 4; t.tm_sec = 5; return &t; }
size_t strftime(char *b, size_t, const char *, const struct tm *) { strcpy(b, "2020-Feb-02_03-04-05"); return 20; }
int gettimeofday(struct timeval *tv, void *) { g_ticks++; tv->tv_sec = 1700000000; tv->tv_usec = g_ticks % 1000000; return 0; }
int clock_gettime(clockid_t, struct timespec *ts) { g_ticks++; ts->tv_sec = 1700000000 + g_ticks / 1000000; ts->tv_nsec = (g_ticks % 1000000) * 1000; return 0; }
int nanosleep(const struct timespec *, struct timespec *) { sx_yield(); return 0; }
int usleep(useconds_t) { sx_yield(); return 0; }
int rand() { static unsigned s = 1; s = s * 1103515245 + 12345; return (int)(s >> 1 & 0x3fffffff); }
void srand(unsigned) {}
static rlim_t g_nofile = 1024, g_nofileHard = 1024;
int getrlimit64(__rlimit_resource_t, struct rlimit64 *r) noexcept { r->rlim_cur = g_nofile; r->rlim_max = g_nofileHard; return 0; }
int getrlimit(__rlimit_resource_t, struct rlimit *r) noexcept { r->rlim_cur = g_nofile; r->rlim_max = g_nofileHard; return 0; }
void sx_set_nofile(uint64_t s, uint64_t h) { g_nofile = s; g_nofileHard = h; }
static unsigned g_cpus = 1;
void sx_set_cpus(unsigned n) { g_cpus = n; }
int sx_native() { return 0; }
int getpid() { return 4242; }
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
int atexit(void (*)()) { return 0; }
void *__dso_handle = 0;
char *__cxa_demangle(const char *, char *, size_t *, int *st) { if (st) *st = -2; return 0; }
void __assert_fail(const char *m, const char *, unsigned, const char *) { sx_fail_(m); for (;;) {} }
// pthread odds and ends
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a && *(const int *)a) ((uint32_t *)m)[4] = 1; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (*(uint32_t *)m) sx_fail_("pthread_mutex_destroy of a locked mutex"); return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t == PTHREAD_MUTEX_RECURSIVE; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) { *t = sx_thread_create(f, a) + 1; return 0; }
int pthread_join(pthread_t t, void **r) { void *v = sx_thread_join((uint32_t)t - 1); if (r) *r = v; return 0; }
pthread_t pthread_self() { return sx_thread_self() + 1; }
int x_pthread_equal(pthread_t a, pthread_t b) __asm__("pthread_equal");
int x_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_once(pthread_once_t *o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
}
// ------------------------------------------------------------------ file system
struct FNode { char path[232]; int kind; uint8_t *d; size_t size, cap; int links; size_t at, hole; }; // hole bytes of zeros are not stored, from offset at on (sx_file_hole)

struct FDesc { FNode *n; int64_t off; int flags; };
enum { NFILE = 96, NFD = 96 };
static FNode *g_files[NFILE]; static FDesc g_fd[NFD]; static int g_nfiles;
static uint32_t g_fops; static int g_fbudget, g_fcount, g_flast, g_fat, g_fatn, g_fatk;
static int fault(uint32_t mask, uint32_t eintr = 0) { // returns the fault to deliver
  if (g_fat) { if (!((mask | eintr) & g_fat)) return 0; if (--g_fatn > 0) return 0; int k = g_fat; if (--g_fatk <= 0) g_fat = 0; g_fcount++; g_flast = k; return k; }
  if (g_fbudget <= 0 || !(g_fops & (mask | eintr))) return 0;
  int k[12], n = 0; for (uint32_t b = 1; b <= 2048; b <<= 1) if ((mask | eintr) & g_fops & b) k[n++] = b;
  uint32_t c = sx_choice("fault", n + 1);
  if (!c) return 0;
  g_fbudget--; g_fcount++; g_flast = k[c - 1]; return k[c - 1];
}
static FNode *ffind(const char *p) { for (int i = 0; i < g_nfiles; i++) if (g_files[i] && !strcmp(g_files[i]->path, p)) return g_files[i]; return 0; }
static bool fparent(const char *p) { char b[232]; int n = -1; for (int i = 0; p[i]; i++) { if (i > 230) return false; b[i] = p[i]; if (p[i] == '/') n = i; } if (n <= 0) return true; b[n] = 0; FNode *f = ffind(b); return f && f->kind == 2; }
static FNode *fmake(const char *p, int kind) {
  if (strlen(p) > 230) { errno = ENAMETOOLONG; return 0; }
  if (!fparent(p)) { errno = ENOENT; return 0; }
  int i = 0; for (; i < g_nfiles; i++) if (!g_files[i]) break;
  if (i == NFILE) { sx_unsupported("file table full"); errno = ENOSPC; return 0; }
  if (i == g_nfiles) g_nfiles++;
  FNode *f = (FNode *)sx_raw_malloc(sizeof(FNode)); strcpy(f->path, p); f->kind = kind; f->d = 0; f->size = f->cap = 0; f->links = 1; f->at = f->hole = 0; g_files[i] = f; return f; }
static void fdrop(FNode *f) { if (--f->links == 0) { if (f->d) sx_raw_free(f->d); sx_raw_free(f); } }
static void fgrow(FNode *f, size_t n) { if (n <= f->cap) return; size_t c = f->cap ? f->cap : 256; while (c < n) c *= 2; if (c > (1u << 28)) { sx_unsupported("file larger than 256 MB"); return; } uint8_t *d = (uint8_t *)sx_raw_malloc(c); if (f->d) { memcpy(d, f->d, f->size); sx_raw_free(f->d); } f->d = d; f->cap = c; }
static void fresize(FNode *f, size_t n) { fgrow(f, n); if (n > f->size) memset(f->d + f->size, 0, n - f->size); f->size = n; }
static size_t flen(FNode *f) { return f->size + f->hole; }
static void flresize(FNode *f, size_t n) { if (!f->hole || n >= f->at + f->hole) fresize(f, n - f->hole); else if (n > f->at) { f->hole = n - f->at; fresize(f, f->at); } else { f->hole = 0; fresize(f, n); } }
static void funlink(FNode *f) { for (int i = 0; i < g_nfiles; i++) if (g_files[i] == f) g_files[i] = 0; f->path[0] = 0; fdrop(f); }
static char g_crashPath[232]; static int g_crashAt, g_mutations;
static void mutated() { if (!g_crashAt || ++g_mutations != g_crashAt) return; char b[240]; strcpy(b, g_crashPath); strcat(b, ".crash"); FNode *f = ffind(g_crashPath); if (!f) return; FNode *g = ffind(b); if (!g) g = fmake(b, 1); fresize(g, f->size); if (f->size) memcpy(g->d, f->d, f->size); }
extern "C" {
void sx_faults(uint32_t ops, int budget) { g_fops = ops; g_fbudget = budget; g_fcount = 0; g_flast = 0; g_fat = 0; }
void sx_fault_at(uint32_t kind, int nth, int times) { g_fbudget = 0; g_fcount = 0; g_flast = 0; g_fatn = nth; g_fatk = times; g_fat = kind; }
int sx_faults_injected() { return g_fcount; }
int sx_last_fault() { return g_flast; }
const char *sx_dir() { return "/w"; }
int open(const char *p, int fl, ...) {
  int ft = fault(SXF_OPEN_ERR); if (ft) { errno = EMFILE; return -1; }
  FNode *f = ffind(p);
  if (f && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
  if (!f) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } f = fmake(p, 1); if (!f) return -1; }
  if (f->kind == 2 && (fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
  int d = 3; for (; d < NFD; d++) if (!g_fd[d].n) break;
  if (d == NFD) { errno = EMFILE; return -1; }
  if ((fl & O_TRUNC) && f->kind == 1) { flresize(f, 0); mutated(); }
  sx_race_sync(&g_fd[d], 0); g_fd[d].n = f; g_fd[d].off = 0; g_fd[d].flags = fl; f->links++; return d; }
int open64(const char *p, int fl, ...) { return open(p, fl, 0); }
static FDesc *fdd(int d) { if (d < 0 || d >= NFD || !g_fd[d].n) { errno = EBADF; return 0; } return &g_fd[d]; }
int close(int d) { FDesc *f = fdd(d); if (!f) { sx_fail_("close of a descriptor that is not open"); return -1; } FNode *n = f->n; f->n = 0; sx_race_access(&f->off, 8, 1); sx_race_sync(f, 1); fdrop(n); if (fault(SXF_CLOSE_ERR)) { errno = EIO; return -1; } return 0; }
ssize_t read(int d, void *b, size_t n) {
  FDesc *f = fdd(d); if (!f) return -1; if (f->n->kind == 2) { errno = EISDIR; return -1; } if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  int ft = fault(SXF_READ_ERR | (n > 1 ? SXF_READ_SHORT : 0), SXF_EINTR);
  if (ft == SXF_READ_ERR) { errno = EIO; return -1; } if (ft == SXF_EINTR) { errno = EINTR; return -1; }
  if (f->off >= (int64_t)flen(f->n)) return 0;
  size_t k = flen(f->n) - f->off; if (k > n) k = n; if (ft == SXF_READ_SHORT) k = k > 1 ? k / 2 : k;
  if (f->n->hole && f->off + k > f->n->at) {
    size_t h = f->n->hole, e = f->n->at + h;
    if ((size_t)f->off >= e) memcpy(b, f->n->d + (f->off - h), k);
    else { for (size_t i = 0; i < k; i++) { size_t o = f->off + i; ((uint8_t *)b)[i] = o < f->n->at ? f->n->d[o] : o < e ? 0 : f->n->d[o - h]; } }
  } else memcpy(b, f->n->d + f->off, k);
  f->off += k; sx_race_access(&f->off, 8, 1); sx_race_access(b, k, 1); return k; }
ssize_t write(int d, const void *b, size_t n) {
  FDesc *f = fdd(d); if (!f) return -1; if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  int ft = fault(SXF_WRITE_ERR | SXF_WRITE_ENOSPC | (n > 1 ? SXF_WRITE_SHORT : 0), SXF_EINTR);
  if (ft == SXF_WRITE_ERR) { errno = EIO; return -1; } if (ft == SXF_WRITE_ENOSPC) { errno = ENOSPC; return -1; } if (ft == SXF_EINTR) { errno = EINTR; return -1; }
  if (ft == SXF_WRITE_SHORT) n = n / 2;
  if (f->flags & O_APPEND) f->off = flen(f->n);
  if (f->n->hole && f->off + n > f->n->at) {
    size_t h = f->n->hole; if ((size_t)f->off < f->n->at + h) { sx_unsupported("write into the hole of a file"); return -1; }
    if (f->off + n > flen(f->n)) flresize(f->n, f->off + n);
    memcpy(f->n->d + (f->off - h), b, n);
  } else {
  if (f->off + n > f->n->size) { size_t o = f->n->size; fgrow(f->n, f->off + n); if (f->off > (int64_t)o) memset(f->n->d + o, 0, f->off - o); f->n->size = f->off + n; }
  memcpy(f->n->d + f->off, b, n); }
  f->off += n; sx_race_access(&f->off, 8, 1); sx_race_access(b, n, 0); mutated(); return n; }
ssize_t pread(int d, void *b, size_t n, off_t o) { FDesc *f = fdd(d); if (!f) return -1; int64_t s = f->off; f->off = o; ssize_t r = read(d, b, n); f->off = s; return r; }
ssize_t pwrite(int d, const void *b, size_t n, off_t o) { FDesc *f = fdd(d); if (!f) return -1; int64_t s = f->off; f->off = o; ssize_t r = write(d, b, n); f->off = s; return r; }
off_t lseek(int d, off_t o, int w) noexcept { FDesc *f = fdd(d); if (!f) return -1; if (fault(SXF_SEEK_ERR)) { errno = EIO; return -1; } int64_t t = w == 0 ? o : w == 1 ? f->off + o : (int64_t)flen(f->n) + o; if (t < 0) { errno = EINVAL; return -1; } f->off = t; sx_race_access(&f->off, 8, 1); return t; }
off_t lseek64(int d, off_t o, int w) noexcept { return lseek(d, o, w); }
int ftruncate(int d, off_t n) noexcept { FDesc *f = fdd(d); if (!f) return -1; if (fault(SXF_TRUNC_ERR)) { errno = EIO; return -1; } if ((f->flags & O_ACCMODE) == O_RDONLY || n < 0) { errno = EINVAL; return -1; } flresize(f->n, n); mutated(); return 0; }
int ftruncate64(int d, off_t n) noexcept { return ftruncate(d, n); }
static void fillst(FNode *f, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = f->kind == 2 ? (S_IFDIR | 0755) : (S_IFREG | 0644); s->st_size = flen(f); s->st_nlink = 1; s->st_blksize = 4096; }
int fstat(int d, struct stat *s) noexcept { FDesc *f = fdd(d); if (!f) return -1; if (fault(SXF_STAT_ERR)) { errno = EIO; return -1; } fillst(f->n, s); return 0; }
int fstat64(int d, struct stat64 *s) noexcept { return fstat(d, (struct stat *)s); }
int stat(const char *p, struct stat *s) noexcept { FNode *f = ffind(p); if (!f) { errno = ENOENT; return -1; } fillst(f, s); return 0; }
int stat64(const char *p, struct stat64 *s) noexcept { return stat(p, (struct stat *)s); }
int access(const char *p, int) noexcept { if (!ffind(p)) { errno = ENOENT; return -1; } return 0; }
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int posix_fadvise64(int, off_t, off_t, int) noexcept { return 0; }
int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
int statfs64(const char *, struct statfs64 *s) noexcept { memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_bavail = s->f_bfree = s->f_blocks = 1 << 20; return 0; }
int unlink(const char *p) noexcept { if (fault(SXF_UNLINK_ERR)) { errno = EIO; return -1; } FNode *f = ffind(p); if (!f) { errno = ENOENT; return -1; } if (f->kind == 2) { errno = EISDIR; return -1; } funlink(f); return 0; }
int mkdir(const char *p, mode_t) noexcept { if (ffind(p)) { errno = EEXIST; return -1; } return fmake(p, 2) ? 0 : -1; }
static int haschild(const char *p) { size_t n = strlen(p); for (int i = 0; i < g_nfiles; i++) if (g_files[i] && !strncmp(g_files[i]->path, p, n) && g_files[i]->path[n] == '/') return 1; return 0; }
int rmdir(const char *p) noexcept { FNode *f = ffind(p); if (!f) { errno = ENOENT; return -1; } if (f->kind != 2) { errno = ENOTDIR; return -1; } if (haschild(p)) { errno = ENOTEMPTY; return -1; } funlink(f); return 0; }
int rename(const char *a, const char *b) noexcept { FNode *f = ffind(a); if (!f) { errno = ENOENT; return -1; } if (!fparent(b)) { errno = ENOENT; return -1; } if (!strcmp(a, b)) return 0; FNode *g = ffind(b); if (g) { if (g->kind == 2) { errno = EISDIR; return -1; } funlink(g); } strcpy(f->path, b); return 0; }
int remove(const char *p) noexcept { FNode *f = ffind(p); if (!f) { errno = ENOENT; return -1; } return f->kind == 2 ? rmdir(p) : unlink(p); }
int sx_fs_kind(const char *p) { FNode *f = ffind(p); return f ? f->kind : 0; }
int sx_fs_remove(const char *p) { return remove(p) == 0 ? 0 : errno; }
long sx_fs_remove_all(const char *p) { long c = 0; size_t n = strlen(p); for (int i = 0; i < g_nfiles; i++) if (g_files[i] && !strncmp(g_files[i]->path, p, n) && (g_files[i]->path[n] == '/' || !g_files[i]->path[n])) { c++; funlink(g_files[i]); } return c; }
int sx_fs_mkdir(const char *p) { return mkdir(p, 0777) == 0 ? 0 : errno; }
long sx_fs_size(const char *p) { FNode *f = ffind(p); return f ? (long)flen(f) : -1; }
int sx_fs_rename(const char *a, const char *b) { return rename(a, b) == 0 ? 0 : errno; }
// harness access
int sx_open_fds() { int n = 0; for (int i = 0; i < NFD; i++) n += g_fd[i].n != 0; return n; }
int sx_file_count(const char *dir) { char b[256] = "/w"; if (*dir) { strcat(b, "/"); strcat(b, dir); } size_t n = strlen(b); int c = 0; for (int i = 0; i < g_nfiles; i++) if (g_files[i] && !strncmp(g_files[i]->path, b, n) && g_files[i]->path[n] == '/') c++; return c; }
int64_t sx_file_size(const char *p) { return sx_fs_size(p); }
int sx_file_byte(const char *p, int64_t o) { FNode *f = ffind(p); if (!f || o < 0 || o >= (int64_t)flen(f)) return -1; if (f->hole && o >= (int64_t)f->at) return o < (int64_t)(f->at + f->hole) ? 0 : f->d[o - f->hole]; return f->d[o]; }
int sx_file_put(const char *p, int64_t o, uint8_t v) { FNode *f = ffind(p); if (!f) f = fmake(p, 1); if (o >= (int64_t)f->size) fresize(f, o + 1); f->d[o] = v; return 0; }
int sx_file_copy(const char *a, const char *b) { FNode *f = ffind(a); if (!f) return -1; FNode *g = ffind(b); if (!g) g = fmake(b, 1); fresize(g, f->size); if (f->size) memcpy(g->d, f->d, f->size); return 0; }
int sx_file_same(const char *a, const char *b) { FNode *f = ffind(a), *g = ffind(b); if (!f || !g) return f == g; if (f->size != g->size) return 0; uint64_t x = 0, u, v; size_t i = 0, n = f->size; for (; i + 8 <= n; i += 8) { memcpy(&u, f->d + i, 8); memcpy(&v, g->d + i, 8); x |= u ^ v; } for (; i < n; i++) x |= f->d[i] ^ g->d[i]; return x == 0; }
void sx_crash_arm(const char *path, int n) { strcpy(g_crashPath, path); g_crashAt = n; g_mutations = 0; }
int sx_mutations() { return g_mutations; }
int sx_file_trunc(const char *p, int64_t n) { FNode *f = ffind(p); if (!f) f = fmake(p, 1); flresize(f, n); return 0; }
int sx_file_hole(const char *p, int64_t at, int64_t len) { FNode *f = ffind(p); if (!f || f->hole || at > (int64_t)f->size) { sx_unsupported("sx_file_hole"); return -1; } f->at = at; f->hole = len; return 0; }
}
// ------------------------------------------------------------------ C++ ABI
static int g_newBudget;
static pthread_t g_newThread;
extern "C" void sx_new_fail(int b) { g_newBudget = b; g_newThread = pthread_self(); } // only the calling thread
static void *xnew(size_t n) { if (g_newBudget > 0 && pthread_self() == g_newThread && sx_choice("newfail", 2)) { g_newBudget--; throw std::bad_alloc(); } return malloc(n); }
void *operator new(size_t n) { return xnew(n); }
void *operator new[](size_t n) { return xnew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new(size_t n, std::align_val_t) { return xnew(n); }
void *operator new[](size_t n, std::align_val_t) { return xnew(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
const std::nothrow_t std::nothrow{};
struct ExcHdr { const std::type_info *ti; void (*dtor)(void *); int64_t count; int64_t ref; void *adj; ExcHdr *next; int64_t pad[2]; };
static_assert(sizeof(ExcHdr) == 64, "layout");
static ExcHdr *H(void *e) { return (ExcHdr *)((char *)e - 64); }
static thread_local ExcHdr *t_caught; static thread_local int t_uncaught;
extern "C" {
void *__cxa_allocate_exception(size_t n) noexcept { char *p = (char *)sx_raw_malloc(n + 64); memset(p, 0, 64); return p + 64; }
void __cxa_free_exception(void *e) noexcept { sx_raw_free((char *)e - 64); }
static void excunref(ExcHdr *h) { if (--h->ref == 0) { void *e = (char *)h + 64; if (h->dtor) h->dtor(e); __cxa_free_exception(e); } }
void x___cxa_throw(void *e, void *ti, void (*d)(void *)) __asm__("__cxa_throw");
void x___cxa_throw(void *e, void *ti, void (*d)(void *)) { ExcHdr *h = H(e); h->ti = (std::type_info *)ti; h->dtor = d; h->ref = 1; h->count = 0; t_uncaught++; sx_raise(e); }
void *__cxa_get_exception_ptr(void *e) noexcept { return H(e)->adj; }
void *__cxa_begin_catch(void *e) noexcept { ExcHdr *h = H(e); h->count = (h->count < 0 ? -h->count : h->count) + 1; if (t_caught != h) { h->next = t_caught; t_caught = h; } t_uncaught--; return h->adj; }
void __cxa_end_catch() { ExcHdr *h = t_caught; if (!h) return;
  if (h->count < 0) { if (++h->count == 0) { t_caught = h->next; } }
  else if (--h->count == 0) { t_caught = h->next; excunref(h); } }
void __cxa_rethrow() { ExcHdr *h = t_caught; if (!h) std::terminate(); h->count = -h->count; t_uncaught++; sx_raise((char *)h + 64); }
int __gxx_personality_v0(...) { return 0; }
void __cxa_pure_virtual() { sx_fail_("pure virtual function called"); abort(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int x___cxa_guard_acquire(uint64_t *g) __asm__("__cxa_guard_acquire");
int x___cxa_guard_acquire(uint64_t *g) { char *b = (char *)g; while (b[1]) { if (b[0]) { sx_race_sync(g, 0); return 0; } sx_yield(); } sx_race_sync(g, 0); if (b[0]) return 0; b[1] = 1; return 1; }
void x___cxa_guard_release(uint64_t *g) __asm__("__cxa_guard_release");
void x___cxa_guard_release(uint64_t *g) { char *b = (char *)g; b[0] = 1; b[1] = 0; sx_race_sync(g, 1); }
void x___cxa_guard_abort(uint64_t *g) __asm__("__cxa_guard_abort");
void x___cxa_guard_abort(uint64_t *g) { char *b = (char *)g; b[1] = 0; }
void __clang_call_terminate(void *) { sx_fail_("exception escaped a noexcept function (std::terminate)"); abort(); }
}
namespace std {
void terminate() noexcept { sx_fail_("std::terminate"); abort(); }
bool uncaught_exception() noexcept { return t_uncaught > 0; }
int uncaught_exceptions() noexcept { return t_uncaught; }
exception_ptr current_exception() noexcept { exception_ptr p; if (t_caught) { t_caught->ref++; *(void **)&p = (char *)t_caught + 64; } return p; }
void rethrow_exception(exception_ptr p) { void *e = *(void **)&p; H(e)->ref++; H(e)->count = 0; t_uncaught++; sx_raise(e); }
namespace __exception_ptr {
exception_ptr::exception_ptr(void *e) noexcept : _M_exception_object(e) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) H(_M_exception_object)->ref++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { excunref(H(_M_exception_object)); _M_exception_object = 0; } }
}
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
bool sx_ti_eq(const type_info *a, const type_info *o) __asm__("_ZNKSt9type_infoeqERKS_");
bool sx_ti_eq(const type_info *a, const type_info *o) { return a == o || strcmp(a->name(), o->name()) == 0; }
}
namespace __cxxabiv1 {
__class_type_info::~__class_type_info() {}
bool __class_type_info::__do_catch(const std::type_info *, void **, unsigned) const { return false; }
bool __class_type_info::__do_upcast(const __class_type_info *, void **) const { return false; }
bool __class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
bool __class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
__class_type_info::__sub_kind __class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
__si_class_type_info::~__si_class_type_info() {}
bool __si_class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
bool __si_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
__class_type_info::__sub_kind __si_class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
__vmi_class_type_info::~__vmi_class_type_info() {}
bool __vmi_class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
bool __vmi_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
__class_type_info::__sub_kind __vmi_class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
__pbase_type_info::~__pbase_type_info() {}
bool __pbase_type_info::__do_catch(const std::type_info *, void **, unsigned) const { return false; }
__pointer_type_info::~__pointer_type_info() {}
bool __pointer_type_info::__is_pointer_p() const { return true; }
bool __pointer_type_info::__pointer_catch(const __pbase_type_info *, void **, unsigned) const { return false; }
__function_type_info::~__function_type_info() {}
bool __function_type_info::__is_function_p() const { return true; }
__fundamental_type_info::~__fundamental_type_info() {}
__enum_type_info::~__enum_type_info() {}
__array_type_info::~__array_type_info() {}
// dynamic_cast: collect the subobjects of the complete object
struct Found { const void *p; bool pub; int n; };
static void walk(const std::type_info *t, const char *p, bool pub, const std::type_info *want, Found &f) {
  if (*t == *want) { if (pub && f.p != p) { f.p = p; f.n++; f.pub = true; } return; }
  void *vt = *(void **)t;
  static const void *si = *(void *const *)&typeid(std::bad_cast), *dummy = 0; (void)dummy;
  if (vt == si) { walk(((const __si_class_type_info *)t)->__base_type, p, pub, want, f); return; }
  static const void *cl = *(void *const *)&typeid(std::exception);
  if (vt == cl) return;
  const __vmi_class_type_info *v = (const __vmi_class_type_info *)t;
  for (unsigned i = 0; i < v->__base_count; i++) { const __base_class_type_info &b = v->__base_info[i]; ptrdiff_t o = b.__offset(); if (b.__is_virtual_p()) o = *(const ptrdiff_t *)(*(const char *const *)p + o); walk(b.__base_type, p + o, pub && b.__is_public_p(), want, f); } }
extern "C" void *__dynamic_cast(const void *src, const __class_type_info *, const __class_type_info *dst, ptrdiff_t) {
  const void *const *vt = *(const void *const *const *)src; ptrdiff_t top = ((const ptrdiff_t *)vt)[-2]; const std::type_info *whole = (const std::type_info *)vt[-1];
  Found f{0, false, 0}; walk(whole, (const char *)src + top, true, dst, f); return f.n == 1 ? (void *)f.p : 0; }
}
namespace std {
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "std::bad_function_call"; }
struct CowRep { long rc; char s[1]; };
static char *cowmk(const char *s, size_t n) { CowRep *r = (CowRep *)sx_raw_malloc(sizeof(long) + n + 1); r->rc = 1; memcpy(r->s, s, n); r->s[n] = 0; return r->s; }
static CowRep *cowrep(const char *s) { return (CowRep *)(s - offsetof(CowRep, s)); }
__cow_string::__cow_string() { _M_p = cowmk("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = cowmk(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = cowmk(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; cowrep(_M_p)->rc++; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { cowrep(o._M_p)->rc++; if (--cowrep(_M_p)->rc == 0) sx_raw_free(cowrep(_M_p)); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { if (--cowrep(_M_p)->rc == 0) sx_raw_free(cowrep(_M_p)); }
#define EXC(T) T::T(const char *s) : _M_msg(s, strlen(s)) {} T::T(const string &s) : _M_msg(s) {} T::T(const T &o) noexcept : exception(o), _M_msg(o._M_msg) {} T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; } T::~T() noexcept {} const char *T::what() const noexcept { return *(const char *const *)&_M_msg; }
EXC(runtime_error) EXC(logic_error)
#define EXC2(T, B) T::T(const char *s) : B(s) {} T::T(const string &s) : B(s) {} T::~T() noexcept {}
EXC2(domain_error, logic_error) EXC2(invalid_argument, logic_error) EXC2(length_error, logic_error) EXC2(out_of_range, logic_error) EXC2(range_error, runtime_error) EXC2(overflow_error, runtime_error) EXC2(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
struct GenCat : error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
const error_category &generic_category() noexcept { static GenCat c; return c; }
const error_category &system_category() noexcept { static GenCat c; return c; }
}
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
// strings
template class basic_string<char>;
template <> basic_istream<char> &getline(basic_istream<char> &i, string &s, char d) { s.clear(); bool any = false; for (;;) { char c; if (!i.good()) { if (!any) i.setstate(ios_base::failbit); break; } if (i.rdbuf()->sgetn(&c, 1) != 1) { i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); break; } any = true; if (c == d) break; s.push_back(c); } return i; }
template <> basic_istream<char> &operator>>(basic_istream<char> &i, string &s) { s.clear(); basic_istream<char>::sentry e(i); if (e) for (;;) { int c = i.rdbuf()->sgetc(); if (c == EOF) { i.setstate(ios_base::eofbit); break; } if (c == ' ' || c == '\n' || c == '\t') break; s.push_back((char)c); i.rdbuf()->sbumpc(); } return i; }
ostream &sx_ostream_insert(ostream &o, const char *s, streamsize n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
ostream &sx_ostream_insert(ostream &o, const char *s, streamsize n) { return o.pad(s, n); }
// red-black tree interface, without rebalancing (ordering and iteration only)
static _Rb_tree_node_base *rbmin(_Rb_tree_node_base *x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base *rbmax(_Rb_tree_node_base *x) { while (x->_M_right) x = x->_M_right; return x; }
static _Rb_tree_node_base *rbinc(_Rb_tree_node_base *x) { if (x->_M_right) return rbmin(x->_M_right); _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static _Rb_tree_node_base *rbdec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) return rbmax(x->_M_left); _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rbinc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rbinc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rbdec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rbdec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto repl = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) { _Rb_tree_node_base *p = u->_M_parent; if (h._M_parent == u) h._M_parent = v; else if (p->_M_left == u) p->_M_left = v; else p->_M_right = v; if (v) v->_M_parent = p; };
  if (h._M_left == z) h._M_left = z->_M_right ? rbmin(z->_M_right) : z->_M_parent;
  if (h._M_right == z) h._M_right = z->_M_left ? rbmax(z->_M_left) : z->_M_parent;
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base *y = rbmin(z->_M_right); if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = x; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727}; for (size_t x : p) if (x >= n) { _M_next_resize = (size_t)(x * _M_max_load_factor); return x; } _M_next_resize = n; return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t m = ne + ni; if (m + 1 > nb) { size_t w = nb * 2; if (w < m + 1) w = m + 1; return {true, _M_next_bkt(w)}; } _M_next_resize = nb; } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)sx_conc(((const unsigned char *)p)[i])) * 0x100000001b3ull; return h; }
// threads
thread::_State::~_State() {}
void thread::_M_start_thread(unique_ptr<_State> s, void (*)()) { struct L { static void *f(void *p) { unique_ptr<_State> s((_State *)p); s->_M_run(); return 0; } }; *(pthread_t *)&_M_id = sx_thread_create(L::f, s.release()) + 1; }
void thread::join() { pthread_t t = *(pthread_t *)&_M_id; sx_thread_join((uint32_t)t - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return g_cpus; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait((pthread_cond_t *)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t *)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t *)this); }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { g_ticks++; return time_point(duration(1700000000000000000ll + (int64_t)g_ticks * 1000)); }
steady_clock::time_point steady_clock::now() noexcept { g_ticks += g_tickStep; return time_point(duration((int64_t)g_ticks * 1000)); }
} }
void random_device::_M_init(const string &) {}
void random_device::_M_fini() {}
} // namespace std
static int g_rndMode; static uint32_t g_rndRange = 4, g_rnd;
extern "C" void sx_random_mode(int m, uint32_t r) { g_rndMode = m; g_rndRange = r; }
namespace std {
random_device::result_type random_device::_M_getval() { if (g_rndMode) return sx_choice("rnd", g_rndRange); return g_rnd++ * 2654435761u + 12345; }
// console
struct NullBuf : basic_streambuf<char> { int overflow(int c) override { return c; } streamsize xsputn(const char *, streamsize n) override { return n; } };
static NullBuf g_null;
ostream cout(&g_null), cerr(&g_null), clog(&g_null); istream cin(&g_null);
}
#include "zstub.inc"
extern "C" { // libm
long double sqrtl(long double x) { return __builtin_elementwise_sqrt(x); }
double sqrt(double x) { return __builtin_elementwise_sqrt(x); }
float sqrtf(float x) { return __builtin_elementwise_sqrt(x); }
double floor(double x) { return __builtin_elementwise_floor(x); }
double ceil(double x) { return __builtin_elementwise_ceil(x); }
double log(double x) { return __builtin_elementwise_log(x); }
double log2(double x) { return __builtin_elementwise_log2(x); }
double log10(double x) { return __builtin_elementwise_log10(x); }
double exp(double x) { return __builtin_elementwise_exp(x); }
double pow(double x, double y) { return __builtin_elementwise_pow(x, y); }
}
extern "C" void sx_start() { fmake("/w", 2); fmake("/tmp", 2); harness(); }
