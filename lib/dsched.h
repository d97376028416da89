// Controlled scheduler used by the concurrency harnesses.
//
// Linked with -Wl,--wrap=<symbol> for the blocking primitives listed in dsched.wrap, it runs the real,
// unmodified code of the library with exactly one managed thread executing at a time, chooses the next
// thread at every synchronisation point from a seeded generator, simulates blocking and time, and still
// performs the real (sanitizer-intercepted) mutex operations, so that ThreadSanitizer sees exactly the
// happens-before edges the library creates and none of the scheduler's own.
#ifndef DSCHED_H
#define DSCHED_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum ds_outcome { DS_DEADLOCK = 1, DS_LIVELOCK = 2, DS_DEAD_OBJECT = 3, DS_MISUSE = 4 };

// Called (on the thread that noticed it) when the run cannot go on. Must not return.
typedef void (*ds_fatal_fn)(int outcome, const char* text);

enum { DS_EV_THREAD_START = -1, DS_EV_THREAD_EXIT = -2 };
struct ds_event { uint32_t seq; int32_t kind; int32_t tid; int32_t pad; int64_t a, b, c; uint64_t vt; };

enum ds_flags
{
    DS_NO_TIME_JUMPS = 1,   // never let virtual time jump while a thread can run
    DS_NO_SPURIOUS   = 2    // no spurious wake-ups
};

void     ds_begin(uint64_t seed, int flags, ds_fatal_fn fatal); // the caller becomes managed thread 0
int      ds_end(void);              // lets everything run until blocked; returns number of unfinished threads
int      ds_active(void);
int      ds_tid(void);              // managed thread number of the caller, or -1
void     ds_yield(void);            // scheduling point
void     ds_quiesce(void);          // returns when no other managed thread can run
void     ds_sleep_until(uint64_t vt);
uint64_t ds_now(void);              // virtual nanoseconds since ds_begin
int64_t  ds_realtime_base(void);    // CLOCK_REALTIME nanoseconds at virtual time 0
void     ds_advance(uint64_t vt);   // moves virtual time forward (never back)
int      ds_blocked(int tid);       // 1 when the thread is blocked (not runnable, not finished)
int      ds_done(int tid);
int      ds_threads(void);          // number of managed threads created so far
int      ds_running_threads(void);  // number of unfinished managed threads
int      ds_holds_locks(void);      // number of mutexes/rwlocks the caller holds
uint64_t ds_hash(void);             // fingerprint of the schedule so far
uint32_t ds_steps(void);
void     ds_dead(const void* p, size_t n);   // synchronisation objects in [p,p+n) no longer exist
void     ds_undead(void);
void     ds_nopreempt(int delta);
void     ds_freeze(int on);         // while on: time stands still and no spurious wake-ups

void     ds_rec(int kind, int64_t a, int64_t b, int64_t c);
uint32_t ds_nevents(void);
const struct ds_event* ds_events(void);
uint64_t ds_rand(void);             // generator of the run (only call from managed threads)

// Memory the race detector must not see (harness-internal, race free because only one thread runs).
void     ds_limits(uint32_t soft, uint32_t hard);   // steps after which scheduling turns fair, and a run counts as endless
int64_t  ds_get(int slot);
void     ds_set(int slot, int64_t v);
int64_t  ds_add(int slot, int64_t v);        // returns the new value
void     ds_gate_wait(int slot);             // blocks until the slot is non-zero; creates no happens-before edge
void     ds_gate_open(int slot, int64_t v);

// fault injection / observation of file-system calls (fswrap.c)
enum fs_op { FS_OPEN = 1, FS_WRITE = 2, FS_RENAME = 4, FS_REMOVE = 8, FS_MKDIR = 16, FS_STAT = 32, FS_CLOSE = 64 };
enum { FS_CRASH_BEFORE = -1, FS_CRASH_AFTER = -2, FS_CRASH_HALF = -3 };
// decides, for call number n of kind op on path: 0 = do it, >0 = fail with this errno, <0 = one of FS_CRASH_*
typedef int (*fs_fault_fn)(int op, const char* path, const char* path2, uint64_t n);
void     fs_hook(fs_fault_fn f);
void     fs_root(const char* dir);      // nothing outside may be created, renamed or removed while a hook is set
uint64_t fs_calls(void);
uint64_t fs_outside(void);              // calls that tried
#ifdef __cplusplus
}
#endif
#endif
