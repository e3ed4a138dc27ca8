// Interface between harnesses, the environment model and the engine.
#pragma once
#include <stddef.h>
#include <stdint.h>
void dsym_sym(void* p, size_t n, const char* name);   // make n bytes symbolic
void dsym_assume(int c);
void dsym_assert(int c, const char* label);
void dsym_cover(const char* label);                   // reachability witness
void dsym_stop(void);                                 // end this path normally
long dsym_concretize(long v);                         // fork over all feasible values
int  dsym_is_symbolic(const void* p, size_t n);
int  dsym_memeq(const void* a, const void* b, size_t n);  // no forking
long dsym_ite(int c, long a, long b);
void dsym_out(const char* name, const void* p, size_t n); // observable output: engine and native replay must agree
void dsym_print(const char* label, long v);
size_t dsym_strlen(const char* s);
void dsym_fmtd(char* out, int size, const char* spec, double v);
double dsym_strtod(const char* s, int* used);
// helpers (rt.c)
int  sym_int(const char* name);
long long sym_ll(const char* name);
double sym_double(const char* name);
float sym_float(const char* name);
int  sym_range(int lo, int hi, const char* name);     // symbolic, lo..hi
int  pick(int lo, int hi, const char* name);          // forks: concrete in every path
// environment model (rt.c)
enum { RT_MAXFILES = 24 };
typedef struct { char name[512]; unsigned char* data; long size, cap; int exists; int readonly; } rt_file;
extern rt_file rt_files[RT_MAXFILES];
int  rt_find(const char* name);                       // inode or -1
long rt_snapshot(int ino, unsigned char** out);       // copy of contents; returns the size
void rt_restore(int ino, const unsigned char* data, long size);
long rt_copyfile(const char* from, const char* to);
typedef struct { int ino; long off; long len; unsigned char* data; } rt_jrec;
enum { RT_MAXJ = 4096 };
extern rt_jrec rt_journal[RT_MAXJ]; extern int rt_njournal; extern int rt_journal_on;
void rt_droplocks(int pid); int rt_nlocks(int pid);
void rt_journal_start(void); void rt_journal_stop(void);
extern int rt_count_io, rt_nwrites, rt_nreads;
extern int rt_fail_write_at, rt_fail_read_at, rt_fail_mode, rt_failed; // 1-based call numbers; mode 0: -1, 1: short
extern int rt_fail_persist;
extern int rt_wr_to_ro;                               // writes attempted through a read-only descriptor
extern int rt_total_writes;                           // successful write() calls so far
extern int rt_pid; extern long long rt_clock_ms; extern int rt_zpad;                // bytes the zlib stand-in adds to its output
extern int rt_locks_taken, rt_lock_conflicts, rt_write_unlocked; 
extern int rt_exited; extern void (*rt_on_sleep)(void);                                // called while a process sleeps
