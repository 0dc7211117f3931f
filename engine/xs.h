// Controlled-scheduler model checker: interface for harnesses.
#ifndef XS_H
#define XS_H
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>

extern "C" {
// --- provided by the harness -------------------------------------------------------------
// Number of scenarios, a name for each, and its body (runs as controlled thread 0).
int xs_nscenarios(void);
const char *xs_scenario_name(int i);
void xs_scenario(int i);
// Optional: cost bound (preemptions + environment deviations) of a scenario; default 2 (deep 3).
int xs_bound(int i, int deep);

// --- provided by the runtime ---------------------------------------------------------------
// Report a violation and end this execution. Never returns.
void xs_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// Same, unless `key` is listed in the known-findings file.
void xs_fail_key(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
// End this execution silently: it is outside the driver's assumptions (not counted as a result).
void xs_discard(void) __attribute__((noreturn));
// Append to this execution's observation (distinct observations are counted and sampled).
void xs_obs(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Environment choice among n answers; answer 0 is the default, others cost `cost` deviations.
int xs_choose(int n, int cost);
// Explicit scheduling point on a harness object (dependent with every other op on that object).
void xs_point(const void *obj);
// Wait (as a blocking operation) until pred(arg) is true; pred may read memory freely.
void xs_wait_until(int (*pred)(void *), void *arg, const char *what);
// Virtual process of the calling thread (default 0). Inherited by created threads.
void xs_vproc(int id);
int xs_tid(void);
int xs_deep(void);
// Synchronisation objects in [p, p+n) are no scheduling points and no happens-before edges.
void xs_quiet(const void *p, size_t n);
// Scheduling points before unlock operations too (needed when try operations observe them).
void xs_unlock_points(int on);
// Spurious condition-variable wake-ups as environment deviations (default on).
void xs_spurious(int on);
// Non-default choices at blocking points cost one as well (delay bounding).
void xs_delay_bound(int on);
// Treat [p, p+n) as deliberately unsynchronised: no race reports.
void xs_norace(const void *p, size_t n);
// Virtual time in nanoseconds since the epoch.
int64_t xs_now(void);
void xs_advance(int64_t ns);
// True while other controlled threads (not daemons) are unfinished.
int xs_others_alive(void);
int xs_nthreads(void);
// Whether the body of thread tid (numbered in order of creation) has returned.
int xs_thread_ended(int tid);
// Block until no other thread can run without time passing or the caller acting ("settled").
void xs_settle(void);
// Mark calling thread as daemon: it may stay blocked at the end.
void xs_daemon(void);
// Let time-outs and sleeps compete with other enabled threads (default on, at cost 1).
void xs_time_races(int on);
// Scheduling points at descriptor operations (default on).
void xs_io_points(int on);
// Writes to descriptors 1 and 2 are controlled operations like others (default off).
void xs_std_io(int on);
// Maximal number of scheduling points of one execution before it counts as a livelock.
void xs_horizon(int n);
// Not a controlled operation inside (harness bookkeeping): no points, no race checks.
void xs_enter_quiet(void);
void xs_leave_quiet(void);

// --- environment hook: consulted before the real call ------------------------------------------
// Return 1 and fill *ret/*err to answer instead of the kernel; return 2 and set *lim to shorten
// the byte count and go on with the real call; return 0 for the plain call.
enum xs_call { XC_READ, XC_WRITE, XC_ACCEPT, XC_CONNECT, XC_EPOLL_WAIT, XC_EPOLL_CTL, XC_CLOSE, XC_SOCKET,
    XC_PIPE, XC_SEM_WAIT, XC_SHM_OPEN, XC_FTRUNCATE, XC_MMAP, XC_FORK, XC_WAITPID, XC_MEMSET, XC_SENDTO, XC_RECVFROM,
    XC_FCNTL, XC_MUNMAP, XC_POLL, XC_THREAD, XC_KILL, XC_NCALLS };
typedef int (*xs_env_hook)(int call, int fd, size_t len, long *ret, int *err, size_t *lim, const void *data);
void xs_env(xs_env_hook h);
// Called (outside the schedule) after a descriptor was really closed / created: for descriptor accounting.
// Scripted child processes: body run in place of a successful exec in the forked process.
typedef void (*xs_child_body)(void);
void xs_fd_points(int on);               // pipe and fcntl(F_SETFD) are scheduling points, too
void xs_children(xs_child_body body);
// Introspection of the modelled environment.
int xs_nmaps(void);                       // live shared mappings
int xs_shm_linked(const char *name);
int xs_sem_linked(const char *name);
int xs_sem_refs(const char *name);        // open handles of a named semaphore
pid_t xs_real_pid(int kid);
int xs_nkids(void);
int xs_kid_reaped(int kid);
}

#define XS_CHECK(c, ...) do { if (!(c)) xs_fail(__VA_ARGS__); } while (0)
#endif
