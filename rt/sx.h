// Interface between harnesses and the two execution environments (symbolic: /verif/sx + rt.cpp; native replay: native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
enum { SXS_ATOMICS = 1, SXS_RACE = 2, SXS_SPURIOUS = 4, SXS_DELAY = 8 };
extern "C" {
uint64_t sx_sym(const char *name, uint32_t bits, uint64_t lo, uint64_t hi); // fresh symbolic value in [lo,hi]
uint32_t sx_choice(const char *name, uint32_t n);                           // forks on 0..n-1
void sx_assume(bool c);
void sx_assert_(bool c, const char *msg);
void sx_cover(const char *name);
void sx_observe(uint64_t v);
uint64_t sx_conc(uint64_t v);
void sx_print(const char *msg, uint64_t v);
void sx_fail_(const char *msg);
void sx_done();
uint32_t sx_live_heap();
void sx_sched_on(int preemptions, int flags); // explore thread schedules with that many preemptions (< 0: off); SXS_ATOMICS: also preempt at atomics, SXS_RACE: report data races; SXS_SPURIOUS: a preemption may also be a spurious wake-up; SXS_DELAY: threads that block hand over round robin, any other choice of successor counts as a preemption
void sx_yield();
void sx_unsupported(const char *msg);
// environment
const char *sx_dir();                  // scratch directory
int sx_open_fds();                     // descriptors the program holds on files below sx_dir()
int sx_file_count(const char *dir);    // directory entries (recursive), dir relative to sx_dir() or ""
int64_t sx_file_size(const char *path);// -1 if absent
int sx_file_byte(const char *path, int64_t off);
int sx_file_put(const char *path, int64_t off, uint8_t v);
int sx_file_copy(const char *from, const char *to); // whole contents
int sx_file_same(const char *a, const char *b);     // same length and contents
void sx_crash_arm(const char *path, int n); // after the n-th change of any file (n >= 1) copy this file to <path>.crash: what a process stopped there leaves behind
int sx_mutations();                        // changes since then
int sx_file_trunc(const char *path, int64_t len);
int sx_file_hole(const char *path, int64_t at, int64_t len); // insert len zero bytes before offset at (once per file; they must not be written to)
// fault plan: ops is a mask, at most budget faults, each eligible call asks sx_choice
enum { SXF_READ_ERR = 1, SXF_READ_SHORT = 2, SXF_WRITE_ERR = 4, SXF_WRITE_SHORT = 8, SXF_WRITE_ENOSPC = 16, SXF_OPEN_ERR = 32, SXF_TRUNC_ERR = 64, SXF_SEEK_ERR = 128, SXF_STAT_ERR = 256, SXF_EINTR = 512, SXF_CLOSE_ERR = 1024, SXF_UNLINK_ERR = 2048 };
void sx_faults(uint32_t ops, int budget);
void sx_fault_at(uint32_t kind, int nth, int times); // the nth eligible call (and the following, times in all) fails; safe with threads
int sx_faults_injected();              // number of faults delivered since the last sx_faults
int sx_last_fault();                   // kind of the last delivered fault
void sx_random_mode(int mode, uint32_t range); // 0 deterministic counter, 1 each random_device draw is sx_choice("rnd",range)
void sx_new_fail(int budget);          // operator new may throw bad_alloc (sx_choice per call), at most budget times
void sx_set_nofile(uint64_t soft, uint64_t hard);
void sx_set_cpus(unsigned n);
void sx_clock_step(uint64_t us);        // every steady_clock reading advances by this much
void sx_compress_mode(int pad);        // compression stand-in: block of n bytes takes n+8+pad bytes (pad<0: the i-th block since this call is padded by 5 times bits 2i,2i+1 (mod 16) of -pad)
int sx_native();                       // 1 when replaying on the real platform
}
void harness(); // provided by each check
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define SX_ASSERT(c, m) sx_assert_((c), m " [" SX_STR(__LINE__) "]")
#define SX_FAIL(m) sx_fail_(m " [" SX_STR(__LINE__) "]")
template <class T> inline T sx_val(const char *n) { return (T)sx_sym(n, sizeof(T) * 8, 0, ~0ull >> (64 - sizeof(T) * 8)); }
template <class T> inline T sx_val(const char *n, T lo, T hi) { return (T)sx_sym(n, sizeof(T) * 8, (uint64_t)lo, (uint64_t)hi); }
inline std::string sx_path(const char *f) { return std::string(sx_dir()) + "/" + f; }
