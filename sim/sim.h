/* Deterministic simulator for the GNU Smalltalk VM: shared declarations.  */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>

enum sim_class {
  C_YIELD, C_GC, C_STALL, C_LATE, C_SIG, C_RSHORT, C_WSHORT, C_EINTR, C_IOERR,
  C_CRASH, C_NETDELAY, C_NETCHUNK, C_NETRESET, C_WALL, C_CONN, C_MALLOC,
  C_NETDROP, C_WAKE, N_CLASS
};

extern int64_t sim_now;			/* virtual monotonic clock, ns */
extern uint64_t sim_sp;			/* bytecodes dispatched since simBegin */
extern int sim_armed;

/* Decisions.  sim_p: should an event of class C happen at its next
   occurrence, with probability PPM/1e6 in search mode; answers the value
   chosen by VAL (called only when it fires), or 0.  */
int64_t sim_decide (int c, long ppm, int64_t lo, int64_t hi);
int64_t sim_knob (const char *name, int64_t dflt);
void sim_event (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void sim_finish (const char *status, int code) __attribute__ ((noreturn));
void sim_fatal (const char *fmt, ...) __attribute__ ((noreturn));
void sim_fault (int c);

/* Signals.  */
void sim_raise (int sig);		/* mark pending */
int sim_point (void);			/* deliver; answers nonzero if a handler ran */

/* Timed events.  */
typedef void (*sim_fn) (void *arg, long arg2);
void sim_at (int64_t when, sim_fn fn, void *arg, long arg2);
void sim_advance (int64_t ns);
int sim_idle_until (int64_t limit);	/* run to next event (or LIMIT); 0 if nothing */

/* Network (simnet.c).  */
int simnet_is (int fd);
ssize_t simnet_read (int fd, void *buf, size_t n, int flags, void *from, void *fromlen);
ssize_t simnet_write (int fd, const void *buf, size_t n, int flags, const void *to, int tolen);
int simnet_close (int fd);
int simnet_poll (int fd, int events);
int simnet_fcntl (int fd, int cmd, long arg);
int simnet_make_pipe (int fd[2], int bidi);
int simnet_child (const char *cmd);
int simnet_attach_fd (int fd, int kind);
int sim_copy_out (void *dst, const void *src, size_t n);
#endif
