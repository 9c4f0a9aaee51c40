/* Deterministic simulator for the GNU Smalltalk VM.

   This file is linked with the VM proper (compiled with -DGST_SIM) into one
   executable.  It defines the C library functions through which the VM
   reaches clocks, timers, signals, files and processes, so that every source
   of nondeterminism is decided here, from one seed (search mode) or from an
   explicit list of decisions (replay mode).  Every decision that is not the
   default is recorded in the history file.  */

#define _GNU_SOURCE
#include <config.h>
#include "gstpriv.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <sys/personality.h>
#include "sim.h"

#define MONO_START	((int64_t) 1000000 * 1000000)
#define WALL_START	((int64_t) 1700000000 * 1000000000)

int64_t sim_now = MONO_START;
static int64_t wall_off = WALL_START - MONO_START;
uint64_t sim_sp;
int sim_armed;
static uint64_t total_sp;
static int64_t begin_ns;
static uint64_t gc_count_total;

static const char *class_name[N_CLASS] = {
  "yield", "gc", "stall", "late", "sig", "rshort", "wshort", "eintr", "ioerr",
  "crash", "netdelay", "netchunk", "netreset", "wall", "conn", "malloc",
  "netdrop", "wake"
};

/* ---- plan -------------------------------------------------------------- */

static struct { char name[24]; int64_t value; } knobs[64];
static int nknobs;
static int replay;
static uint64_t seed;
struct decision { uint64_t idx; int64_t val; };
static struct declist { struct decision *d; size_t n, cap, pos; } plan[N_CLASS], trace[N_CLASS];
static uint64_t counter[N_CLASS];
static uint64_t fired[N_CLASS];
static uint64_t rng[N_CLASS + 1];
static const char *workdir = ".";
static int hist_fd = -1;
static uint64_t seqno;
static uint64_t hist_hash = 14695981039346656037ULL;
static uint64_t sched_hash = 14695981039346656037ULL;
static uint64_t n_switch;
static uint64_t n_idle;

static uint64_t
next_rand (int c)
{
  uint64_t z = (rng[c] += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

static int64_t
rand_range (int c, int64_t lo, int64_t hi)
{
  if (hi <= lo)
    return lo;
  return lo + next_rand (c) % (uint64_t) (hi - lo + 1);
}

int64_t
sim_knob (const char *name, int64_t dflt)
{
  int i;
  for (i = 0; i < nknobs; i++)
    if (!strcmp (knobs[i].name, name))
      return knobs[i].value;
  return dflt;
}

static void
push_dec (struct declist *l, uint64_t idx, int64_t val)
{
  if (l->n == l->cap)
    {
      /* Not from malloc: the addresses that the VM gets must not depend on the
	 length of the plan.  */
      static char *next = (char *) 0x500000000000;
      if (l->cap)
	_exit (91);
      l->cap = 16 << 20;
      l->d = mmap (next, l->cap * sizeof (*l->d), PROT_READ | PROT_WRITE,
		   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
      if (l->d == MAP_FAILED)
	_exit (91);
      next += l->cap * sizeof (*l->d);
    }
  l->d[l->n].idx = idx;
  l->d[l->n++].val = val;
}

void
sim_fault (int c)
{
  fired[c]++;
}

/* Occurrence number IDX of class C in replay mode: the planned value.  */
static int64_t
planned (int c, uint64_t idx)
{
  struct declist *l = &plan[c];
  while (l->pos < l->n && l->d[l->pos].idx < idx)
    l->pos++;
  if (l->pos < l->n && l->d[l->pos].idx == idx)
    return l->d[l->pos++].val;
  return 0;
}

int64_t
sim_decide (int c, long ppm, int64_t lo, int64_t hi)
{
  int64_t v;
  uint64_t idx;
  if (!sim_armed)
    return 0;
  idx = ++counter[c];
  if (replay)
    v = planned (c, idx);
  else
    {
      if (ppm <= 0 || (long) (next_rand (c) % 1000000) >= ppm)
	return 0;
      v = rand_range (c, lo, hi);
    }
  if (v)
    {
      push_dec (&trace[c], idx, v);
      fired[c]++;
    }
  return v;
}

static void
load_plan (const char *file)
{
  FILE *f = fopen (file, "r");
  char line[256], name[64];
  long long a, b;
  int i;
  if (!f)
    {
      fprintf (stderr, "sim: cannot open plan %s\n", file);
      _exit (90);
    }
  while (fgets (line, sizeof line, f))
    {
      if (sscanf (line, "seed %lld", &a) == 1)
	seed = a;
      else if (!strncmp (line, "mode replay", 11))
	replay = 1;
      else if (sscanf (line, "knob %23s %lld", name, &a) == 2)
	{
	  strcpy (knobs[nknobs].name, name);
	  knobs[nknobs++].value = a;
	}
      else if (sscanf (line, "d %23s %lld %lld", name, &a, &b) == 3)
	{
	  for (i = 0; i < N_CLASS; i++)
	    if (!strcmp (class_name[i], name))
	      push_dec (&plan[i], a, b);
	}
    }
  fclose (f);
  for (i = 0; i <= N_CLASS; i++)
    rng[i] = seed * 0x2545F4914F6CDD1DULL + (i + 1) * 0xD1342543DE82EF95ULL;
}

/* ---- history ----------------------------------------------------------- */

static char hbuf[1 << 16];
static size_t hlen;

static void
hflush (void)
{
  size_t off = 0;
  while (off < hlen)
    {
      ssize_t r = syscall (SYS_write, hist_fd, hbuf + off, hlen - off);
      if (r <= 0)
	break;
      off += r;
    }
  hlen = 0;
}

static void
hput (const char *s, size_t n)
{
  if (hist_fd < 0)
    return;
  if (hlen + n > sizeof hbuf)
    hflush ();
  if (n > sizeof hbuf)
    n = sizeof hbuf;
  memcpy (hbuf + hlen, s, n);
  hlen += n;
}

static void
hprintf (const char *fmt, ...)
{
  char b[1024];
  int n;
  va_list ap;
  va_start (ap, fmt);
  n = vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (n >= (int) sizeof b)
    n = sizeof b - 1;
  hput (b, n);
}

static void
mix (uint64_t *h, const void *p, size_t n)
{
  const unsigned char *s = p;
  while (n--)
    *h = (*h ^ *s++) * 1099511628211ULL;
}

void
sim_event (const char *fmt, ...)
{
  char b[4096];
  int n, i;
  va_list ap;
  va_start (ap, fmt);
  n = vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (n >= (int) sizeof b)
    n = sizeof b - 1;
  for (i = 0; i < n; i++)
    if (b[i] == '\n')
      b[i] = ' ';
  seqno++;
  mix (&hist_hash, b, n);
  mix (&hist_hash, &sim_now, sizeof sim_now);
  mix (&sched_hash, b, n);
  hprintf ("E %llu %lld ", (unsigned long long) seqno, (long long) sim_now);
  hput (b, n);
  hput ("\n", 1);
}

static int finishing;

void
sim_finish (const char *status, int code)
{
  int i;
  size_t j;
  if (finishing++)
    _exit (code);
  fflush (stdout);
  fflush (stderr);
  for (i = 0; i < N_CLASS; i++)
    {
      for (j = 0; j < trace[i].n; j++)
	hprintf ("D %s %llu %lld\n", class_name[i],
		 (unsigned long long) trace[i].d[j].idx,
		 (long long) trace[i].d[j].val);
      if (fired[i] || counter[i])
	hprintf ("F %s %llu %llu\n", class_name[i],
		 (unsigned long long) fired[i],
		 (unsigned long long) counter[i]);
    }
  hprintf ("S sp %llu\nS switches %llu\nS idle %llu\nS gc %llu\nS vtime %lld\nS sched %016llx\nS hash %016llx\n",
	   (unsigned long long) total_sp, (unsigned long long) n_switch,
	   (unsigned long long) n_idle, (unsigned long long) gc_count_total,
	   (long long) (sim_now - MONO_START),
	   (unsigned long long) sched_hash,
	   (unsigned long long) (hist_hash + n_switch * 31 + total_sp * 131 + sim_now));
  hprintf ("END %s %d\n", status, code);
  hflush ();
  _exit (code);
}

void
sim_fatal (const char *fmt, ...)
{
  char b[512];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  hprintf ("X %s\n", b);
  sim_finish ("SIMERROR", 91);
}

/* ---- timed events ------------------------------------------------------ */

struct tev { int64_t when; uint64_t seq; sim_fn fn; void *arg; long arg2; };
static struct tev *tevs;
static int nheap, capheap;
static uint64_t tevseq;
static int64_t next_due = INT64_MAX;

static int
tev_less (struct tev *a, struct tev *b)
{
  return a->when < b->when || (a->when == b->when && a->seq < b->seq);
}

void
sim_at (int64_t when, sim_fn fn, void *arg, long arg2)
{
  int i;
  struct tev e = { when, tevseq++, fn, arg, arg2 };
  if (nheap == capheap)
    {
      capheap = capheap ? capheap * 2 : 64;
      tevs = realloc (tevs, capheap * sizeof (*tevs));
    }
  i = nheap++;
  while (i > 0 && tev_less (&e, &tevs[(i - 1) / 2]))
    {
      tevs[i] = tevs[(i - 1) / 2];
      i = (i - 1) / 2;
    }
  tevs[i] = e;
  next_due = tevs[0].when;
}

static struct tev
tev_pop (void)
{
  struct tev top = tevs[0], e = tevs[--nheap];
  int i = 0;
  for (;;)
    {
      int c = 2 * i + 1;
      if (c >= nheap)
	break;
      if (c + 1 < nheap && tev_less (&tevs[c + 1], &tevs[c]))
	c++;
      if (!tev_less (&tevs[c], &e))
	break;
      tevs[i] = tevs[c];
      i = c;
    }
  if (nheap)
    tevs[i] = e;
  next_due = nheap ? tevs[0].when : INT64_MAX;
  return top;
}

static void
run_due (void)
{
  while (next_due <= sim_now)
    {
      struct tev e = tev_pop ();
      e.fn (e.arg, e.arg2);
    }
}

void
sim_advance (int64_t ns)
{
  sim_now += ns;
  if (next_due <= sim_now)
    run_due ();
}

static int64_t max_vtime = (int64_t) 100000 * 1000000000;

int
sim_idle_until (int64_t limit)
{
  n_idle++;
  if (next_due == INT64_MAX && limit == INT64_MAX)
    return 0;
  if (next_due > limit)
    {
      if (limit > sim_now)
	sim_now = limit;
      return 1;
    }
  if (next_due > sim_now)
    sim_now = next_due;
  if (sim_now - MONO_START > max_vtime || n_idle > 2000000)
    sim_finish ("VTIME", 4);
  run_due ();
  return 1;
}

/* ---- signals ----------------------------------------------------------- */

static struct sigaction sigtab[NSIG];
static char sigpend[NSIG];
static int npend;
static sigset_t sigmask_now;
static int in_handler;
static int unreliable;

void
sim_raise (int sig)
{
  if (!sigpend[sig])
    {
      sigpend[sig] = 1;
      npend++;
    }
}

static int
deliver (sigset_t *mask)
{
  int sig, any = 0;
  if (!npend || in_handler)
    return 0;
 again:
  for (sig = 1; sig < NSIG && npend; sig++)
    if (sigpend[sig] && !sigismember (mask, sig))
      {
	struct sigaction *sa = &sigtab[sig];
	sigpend[sig] = 0;
	npend--;
	if (sig != SIGALRM && sig != SIGVTALRM && sig != SIGIO)
	  sim_event ("!sig %d %s", sig, sa->sa_handler == SIG_DFL ? "default"
		     : sa->sa_handler == SIG_IGN ? "ignored" : "handled");
	if (sa->sa_handler == SIG_IGN)
	  continue;
	if (sa->sa_handler == SIG_DFL)
	  {
	    if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT)
	      continue;
	    sim_event ("!killed %d", sig);
	    sim_finish ("KILLED", 5);
	  }
	in_handler++;
	{
	  sigset_t old = sigmask_now;
	  int e = errno;
	  sigmask_now = sa->sa_mask;
	  sa->sa_handler (sig);
	  sigmask_now = old;
	  errno = e;
	}
	in_handler--;
	any++;
	goto again;
      }
  return any;
}

int
sim_point (void)
{
  if (npend)
    return deliver (&sigmask_now);
  return 0;
}

typedef int (*sigaction_fn) (int, const struct sigaction *, struct sigaction *);

int
sigaction (int sig, const struct sigaction *act, struct sigaction *old)
{
  static sigaction_fn real;
  if (sig == SIGSEGV || sig == SIGBUS)
    {
      if (!real)
	real = (sigaction_fn) dlsym (RTLD_NEXT, "sigaction");
      return real (sig, act, old);
    }
  if (sig <= 0 || sig >= NSIG)
    {
      errno = EINVAL;
      return -1;
    }
  sim_point ();
  if (old)
    *old = sigtab[sig];
  if (act)
    sigtab[sig] = *act;
  return 0;
}

sighandler_t
signal (int sig, sighandler_t h)
{
  struct sigaction a, o;
  memset (&a, 0, sizeof a);
  a.sa_handler = h;
  sigaction (sig, &a, &o);
  return o.sa_handler;
}

int
sigprocmask (int how, const sigset_t *set, sigset_t *old)
{
  int i;
  if (old)
    *old = sigmask_now;
  if (set)
    {
      if (how == SIG_SETMASK)
	sigmask_now = *set;
      else
	for (i = 1; i < NSIG; i++)
	  if (sigismember (set, i))
	    {
	      if (how == SIG_BLOCK)
		sigaddset (&sigmask_now, i);
	      else
		sigdelset (&sigmask_now, i);
	    }
    }
  sim_point ();
  return 0;
}

int
pthread_sigmask (int how, const sigset_t *set, sigset_t *old)
{
  return sigprocmask (how, set, old);
}

/* The VM is idle: nothing happens until a signal arrives.  */
int
sigsuspend (const sigset_t *mask)
{
  sigset_t m = *mask;
  for (;;)
    {
      sigset_t old = sigmask_now;
      int any;
      sigmask_now = m;
      any = deliver (&m);
      sigmask_now = old;
      if (any)
	break;
      if (!sim_idle_until (INT64_MAX))
	{
	  sim_event ("!deadlock");
	  sim_finish ("DEADLOCK", 3);
	}
    }
  errno = EINTR;
  return -1;
}

int
raise (int sig)
{
  if (sig == SIGABRT)
    abort ();
  sim_raise (sig);
  sim_point ();
  return 0;
}

int
kill (pid_t pid, int sig)
{
  if (pid == getpid () || pid == 0)
    return sig ? raise (sig) : 0;
  errno = ESRCH;
  return -1;
}

void
abort (void)
{
  sim_event ("!abort");
  sim_finish ("ABORT", 6);
}

pid_t
getpid (void)
{
  return 4242;
}

/* ---- clocks and timers ------------------------------------------------- */

static int64_t
clock_cost (void)
{
  return 200;
}

static int64_t
wall_now (void)
{
  int64_t j = sim_decide (C_WALL, sim_knob ("wall_ppm", 0), 1, 7200);
  if (j)
    wall_off += (j & 1 ? 1 : -1) * (j / 2) * 1000000000;
  return sim_now + wall_off;
}

int
clock_gettime (clockid_t clk, struct timespec *ts)
{
  int64_t t;
  sim_advance (clock_cost ());
  sim_point ();
  t = (clk == CLOCK_MONOTONIC || clk == CLOCK_MONOTONIC_RAW || clk == CLOCK_BOOTTIME)
    ? sim_now : clk == CLOCK_REALTIME ? wall_now () : sim_now - MONO_START;
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}

int
gettimeofday (struct timeval *tv, void *tz)
{
  int64_t t;
  sim_advance (clock_cost ());
  sim_point ();
  t = wall_now ();
  tv->tv_sec = t / 1000000000;
  tv->tv_usec = t / 1000 % 1000000;
  return 0;
}

time_t
time (time_t *p)
{
  time_t t;
  sim_advance (clock_cost ());
  sim_point ();
  t = wall_now () / 1000000000;
  if (p)
    *p = t;
  return t;
}

struct simtimer { int sig; long gen; int used; };
static struct simtimer timers[8];
static struct simtimer itimers[3] = { { SIGALRM }, { SIGVTALRM }, { SIGPROF } };

static void
timer_fire (void *arg, long gen)
{
  struct simtimer *t = arg;
  if (t->gen != gen)
    return;
  sim_raise (t->sig);
}

static void
timer_arm (struct simtimer *t, int64_t when)
{
  t->gen++;
  if (when >= 0)
    {
      int64_t late = sim_decide (C_LATE, sim_knob ("late_ppm", 0), 1,
				 sim_knob ("late_max", 5000000));
      if (when < sim_now)
	when = sim_now;
      sim_at (when + late, timer_fire, t, t->gen);
    }
}

int
timer_create (clockid_t clk, struct sigevent *sev, timer_t *tp)
{
  int i;
  if (sim_knob ("no_timer_create", 0))
    {
      errno = EAGAIN;
      return -1;
    }
  for (i = 0; i < 8; i++)
    if (!timers[i].used)
      {
	timers[i].used = 1;
	timers[i].sig = sev ? sev->sigev_signo : SIGALRM;
	*tp = (timer_t) &timers[i];
	return 0;
      }
  errno = EAGAIN;
  return -1;
}

int
timer_settime (timer_t tp, int flags, const struct itimerspec *new, struct itimerspec *old)
{
  struct simtimer *t = (struct simtimer *) tp;
  int64_t v = new->it_value.tv_sec * (int64_t) 1000000000 + new->it_value.tv_nsec;
  sim_point ();
  if (new->it_value.tv_nsec < 0 || new->it_value.tv_nsec > 999999999
      || new->it_value.tv_sec < 0)
    {
      errno = EINVAL;
      return -1;
    }
  if (v == 0)
    timer_arm (t, -1);
  else
    timer_arm (t, flags & TIMER_ABSTIME ? v : sim_now + v);
  sim_advance (clock_cost ());
  sim_point ();
  return 0;
}

int
setitimer (__itimer_which_t which, const struct itimerval *new, struct itimerval *old)
{
  int64_t v = new->it_value.tv_sec * (int64_t) 1000000000 + new->it_value.tv_usec * 1000;
  sim_point ();
  if (new->it_value.tv_usec < 0 || new->it_value.tv_usec > 999999
      || new->it_value.tv_sec < 0)
    {
      errno = EINVAL;
      return -1;
    }
  timer_arm (&itimers[which], v == 0 ? -1 : sim_now + v);
  sim_point ();
  return 0;
}

int
nanosleep (const struct timespec *req, struct timespec *rem)
{
  int64_t end = sim_now + req->tv_sec * (int64_t) 1000000000 + req->tv_nsec;
  while (sim_now < end)
    {
      if (sim_point ())
	{
	  errno = EINTR;
	  return -1;
	}
      sim_idle_until (end);
    }
  return 0;
}

int
getrusage (__rusage_who_t who, struct rusage *ru)
{
  int64_t t = sim_now - MONO_START;
  memset (ru, 0, sizeof *ru);
  ru->ru_utime.tv_sec = t / 1000000000;
  ru->ru_utime.tv_usec = t / 1000 % 1000000;
  return 0;
}

int
uname (struct utsname *u)
{
  memset (u, 0, sizeof *u);
  strcpy (u->sysname, "Linux");
  strcpy (u->nodename, "simhost");
  strcpy (u->release, "1.0");
  strcpy (u->version, "1");
  strcpy (u->machine, "x86_64");
  return 0;
}

/* ---- scheduling hooks -------------------------------------------------- */

static int64_t sp_ns = 1000;
static long yield_gap, stall_gap, gc_gap, sig_gap;
static int64_t stall_max, max_sp;
static uint64_t next_yield = ~0ULL, next_stall = ~0ULL, next_gc = ~0ULL, next_sig = ~0ULL;
static uint64_t gc_idx;
static long gc_kinds;
static OOP last_proc;
static uint64_t sp_at_switch;

/* Bursty gaps: the mean itself is drawn between 1 and GAP, log-uniformly.  */
static uint64_t
draw_gap (int c, long gap)
{
  int bits = 0;
  int64_t m;
  while ((1L << (bits + 1)) <= gap)
    bits++;
  m = 1L << rand_range (c, 0, bits);
  return rand_range (c, 1, 2 * m);
}

static void
next_planned (int c, uint64_t *next)
{
  struct declist *l = &plan[c];
  *next = l->pos < l->n ? l->d[l->pos].idx : ~0ULL;
}

static void
schedule_next (int c, uint64_t cur, long gap, uint64_t *next)
{
  if (replay)
    next_planned (c, next);
  else
    *next = gap > 0 ? cur + draw_gap (c, gap) : ~0ULL;
}

static int64_t
take (int c, uint64_t idx, int64_t v)
{
  if (replay)
    {
      v = plan[c].d[plan[c].pos].val;
      plan[c].pos++;
    }
  if (v)
    {
      push_dec (&trace[c], idx, v);
      fired[c]++;
    }
  return v;
}

static int sig_choices[8], n_sig_choices;
extern volatile mst_Boolean sim_except_flag;	/* in interp.c */
static uint64_t sim_hold;	/* no injected preemption before this safepoint */

static void
sim_begin (void)
{
  if (sim_armed)
    return;
  sim_armed = 1;
  begin_ns = sim_now;
  schedule_next (C_YIELD, 0, yield_gap, &next_yield);
  schedule_next (C_STALL, 0, stall_gap, &next_stall);
  schedule_next (C_SIG, 0, sig_gap, &next_sig);
  schedule_next (C_GC, 0, gc_gap, &next_gc);
}

static int trace_switch;

/* Debugging aid: log every process switch.  */
static void
trace_event (OOP p)
{
  gst_process proc = (gst_process) OOP_TO_OBJ (p);
  char *n = IS_NIL (proc->name) ? xstrdup ("-") : _gst_to_cstring (proc->name);
  sim_event ("~switch %s pri %d sp %llu except", n, (int) TO_INT (proc->priority), (unsigned long long) total_sp);
  free (n);
}

int
gst_sim_safepoint (void)
{
  int yield = 0;
  OOP p;
  total_sp++;
  sim_now += sp_ns;
  if UNCOMMON (sim_now >= next_due && total_sp >= sim_hold)
    run_due ();
  p = ((gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop))->activeProcess;
  if UNCOMMON (p != last_proc)
    {
      uint64_t d = total_sp - sp_at_switch;
      last_proc = p;
      if UNCOMMON (trace_switch)
	trace_event (p);
      n_switch++;
      sp_at_switch = total_sp;
      mix (&hist_hash, &d, sizeof d);
    }
  if UNCOMMON (total_sp > (uint64_t) max_sp)
    sim_finish ("HANG", 4);
  if (sim_armed)
    {
      sim_sp++;
      if UNCOMMON (sim_sp >= next_stall)
	{
	  int64_t v = 0;
	  if (total_sp >= sim_hold)
	    v = take (C_STALL, sim_sp, rand_range (C_STALL, 1000, stall_max));
	  else if (replay)
	    plan[C_STALL].pos++;
	  schedule_next (C_STALL, sim_sp, stall_gap, &next_stall);
	  sim_advance (v);
	}
      if UNCOMMON (sim_sp >= next_sig)
	{
	  int64_t v = 0;
	  if (total_sp >= sim_hold)
	    v = take (C_SIG, sim_sp, n_sig_choices
		      ? sig_choices[rand_range (C_SIG, 0, n_sig_choices - 1)] : 0);
	  else if (replay)
	    plan[C_SIG].pos++;
	  schedule_next (C_SIG, sim_sp, sig_gap, &next_sig);
	  if (v)
	    sim_raise (v);
	}
      if UNCOMMON (sim_sp >= next_yield)
	{
	  if (total_sp >= sim_hold)
	    yield = take (C_YIELD, sim_sp, 1) != 0;
	  else if (replay)
	    plan[C_YIELD].pos++;
	  schedule_next (C_YIELD, sim_sp, yield_gap, &next_yield);
	}
    }
  if UNCOMMON (npend && total_sp >= sim_hold)
    deliver (&sigmask_now);
  return yield;
}

static int forced_gc;

int
gst_sim_gc_choice (size_t size)
{
  int64_t v = 0;
  if (forced_gc)
    {
      v = forced_gc;
      forced_gc = 0;
      gc_count_total++;
      return v;
    }
  if (!sim_armed)
    return 0;
  if (++gc_idx < next_gc)
    return 0;
  {
    static const int tab[10] = { 1, 1, 1, 1, 1, 2, 2, 3, 4, 4 };
    int k = 1;
    if (!replay)
      do
	k = tab[rand_range (C_GC, 0, 9)];
      while (!((gc_kinds >> k) & 1));
    v = take (C_GC, gc_idx, k);
    schedule_next (C_GC, gc_idx, gc_gap, &next_gc);
  }
  if (v)
    gc_count_total++;
  return v;
}

/* ---- files ------------------------------------------------------------- */

#define MAXFD 1024
static struct { char faulty, fifo; int async; char path[80]; } fdt[MAXFD];
static int nfifo;
static void fifo_opened (int fd);
static void fifo_read (int fd);
static long io_rshort, io_wshort, io_eintr, io_err, io_crash;
static uint64_t crash_at;

/* Paths under the data directory of the run are subject to faults.  */
static int
faulty_path (const char *p)
{
  const char *q = strstr (p, "data/");
  size_t l = strlen (p);
  if (q && (q == p || q[-1] == '/'))
    return 1;
  return l >= 5 && !strcmp (p + l - 5, "/data");
}

/* The part of a path that does not depend on where the run is.  */
static const char *
data_part (const char *p)
{
  const char *q, *r = p;
  for (q = p; (q = strstr (q, "data/")); q++)
    if (q == p || q[-1] == '/')
      r = q;
  return r == p && *p == '/' ? "data" : r;
}

static struct dirent *real_readdir (DIR *);

/* What the machine had not written out when it lost its power: with the knob
   `powerloss', what was written to a file since it was opened or since the last
   fsync is lost on a crash, altogether or in part.  */
#define MAXDIRTY 64
static struct { dev_t dev; ino_t ino; off_t synced; } dirty[MAXDIRTY];
static int n_dirty;
static long io_powerloss, io_openlog;

static void
dirty_fd (int fd, int clean)
{
  struct stat st;
  int i;
  if (!io_powerloss || fstat (fd, &st))
    return;
  for (i = 0; i < n_dirty; i++)
    if (dirty[i].dev == st.st_dev && dirty[i].ino == st.st_ino)
      break;
  if (clean)
    {
      if (i < n_dirty)
	dirty[i] = dirty[--n_dirty];
    }
  else if (i == n_dirty && n_dirty < MAXDIRTY)
    {
      dirty[i].dev = st.st_dev;
      dirty[i].ino = st.st_ino;
      dirty[i].synced = st.st_size;
      n_dirty++;
    }
}

static void
power_off (void)
{
  DIR *d;
  struct dirent *e;
  struct stat st;
  char path[600];
  int i;
  if (!n_dirty || !(d = opendir ("data")))
    return;
  while ((e = real_readdir (d)))
    {
      snprintf (path, sizeof path, "data/%s", e->d_name);
      if (lstat (path, &st) || !S_ISREG (st.st_mode))
	continue;
      for (i = 0; i < n_dirty; i++)
	if (dirty[i].dev == st.st_dev && dirty[i].ino == st.st_ino && st.st_size > dirty[i].synced)
	  {
	    off_t l = st.st_size - dirty[i].synced;
	    int k = (uint64_t) st.st_size * 2654435761u >> 9 & 3;
	    l = k == 0 ? 0 : k == 1 ? l / 2 : k == 2 ? l - 1 : l;
	    syscall (SYS_truncate, path, dirty[i].synced + l);
	  }
    }
  closedir (d);
}

/* One operation that changes durable state: maybe crash before it.  Answers
   nonzero (errno set) if the operation has to fail instead.  */
static int
mutate_path (const char *what, const char *path)
{
  int64_t e;
  if (!sim_armed)
    return 0;
  if (sim_decide (C_CRASH, io_crash, 1, 1))
    {
      sim_event ("!crash %s", what);
      power_off ();
      sim_finish ("CRASHED", 7);
    }
  e = sim_decide (C_IOERR, io_err, 1, 3);
  if (e)
    {
      errno = e == 1 ? ENOSPC : e == 2 ? EIO : EDQUOT;
      sim_event ("!ioerr %s %d %s", what, errno, data_part (path));
      return -1;
    }
  return 0;
}

static int
real_open (const char *path, int flags, mode_t mode)
{
  return syscall (SYS_openat, AT_FDCWD, path, flags, mode);
}

int
open (const char *path, int flags, ...)
{
  va_list ap;
  mode_t mode;
  int fd, faulty = faulty_path (path);
  va_start (ap, flags);
  mode = va_arg (ap, int);
  va_end (ap);
  sim_point ();
  /* (open is interrupted on fifos and other slow devices only.)  */
  if (faulty && sim_armed && (flags & (O_CREAT | O_TRUNC)) && mutate_path ("open", path))
    return -1;
  fd = real_open (path, flags, mode);
  if (faulty && (flags & O_CREAT) && io_openlog)
    sim_event ("!open %d", fd >= 0);
  if (fd >= 0 && fd < MAXFD)
    {
      fdt[fd].faulty = faulty;
      snprintf (fdt[fd].path, sizeof fdt[fd].path, "%s", faulty ? data_part (path) : "");
      fdt[fd].async = 0;
      fifo_opened (fd);
    }
  return fd;
}

int __open_2 (const char *path, int flags) { return open (path, flags, 0); }
int open64 (const char *path, int flags, ...) { va_list ap; mode_t m; va_start (ap, flags); m = va_arg (ap, int); va_end (ap); return open (path, flags, m); }

int
mkstemp (char *tmpl)
{
  static int n;
  char *x = tmpl + strlen (tmpl) - 6;
  int fd, i;
  for (i = 0; i < 1000; i++)
    {
      snprintf (x, 7, "s%05d", n++);
      fd = open (tmpl, O_RDWR | O_CREAT | O_EXCL, 0600);
      if (fd >= 0 || errno != EEXIST)
	return fd;
    }
  return -1;
}

int mkstemp64 (char *t) { return mkstemp (t); }

ssize_t
read (int fd, void *buf, size_t n)
{
  if (simnet_is (fd))
    return simnet_read (fd, buf, n, 0, NULL, NULL);
  sim_point ();
  if (fd >= 0 && fd < MAXFD && fdt[fd].fifo)
    fifo_read (fd);
  if (fd >= 0 && fd < MAXFD && fdt[fd].faulty && sim_armed)
    {
      int64_t v;
      if (sim_decide (C_EINTR, io_eintr, 1, 1))
	{
	  errno = EINTR;
	  return -1;
	}
      if (sim_decide (C_IOERR, io_err, 1, 1))
	{
	  errno = EIO;
	  sim_event ("!ioerr read %d %s", errno, fdt[fd].path);
	  return -1;
	}
      if (n > 1 && (v = sim_decide (C_RSHORT, io_rshort, 1, n - 1)))
	n = v < (int64_t) n ? v : n - 1;
    }
  return syscall (SYS_read, fd, buf, n);
}

ssize_t __read_chk (int fd, void *buf, size_t n, size_t l) { return read (fd, buf, n); }

ssize_t
pread (int fd, void *buf, size_t n, off_t off)
{
  sim_point ();
  if (fd >= 0 && fd < MAXFD && fdt[fd].faulty && sim_armed)
    {
      int64_t v;
      if (sim_decide (C_EINTR, io_eintr, 1, 1))
	{
	  errno = EINTR;
	  return -1;
	}
      if (sim_decide (C_IOERR, io_err, 1, 1))
	{
	  errno = EIO;
	  sim_event ("!ioerr read %d %s", errno, fdt[fd].path);
	  return -1;
	}
      if (n > 1 && (v = sim_decide (C_RSHORT, io_rshort, 1, n - 1)))
	n = v < (int64_t) n ? v : n - 1;
    }
  return syscall (SYS_pread64, fd, buf, n, off);
}

static int
write_faults (int fd, const void *buf, size_t *n, off_t off, int at)
{
  int64_t v;
  if (!(fd >= 0 && fd < MAXFD && fdt[fd].faulty && sim_armed))
    return 0;
  if (sim_decide (C_EINTR, io_eintr, 1, 1))
    {
      errno = EINTR;
      return -1;
    }
  if ((v = sim_decide (C_CRASH, io_crash, 1, *n + 1)))
    {
      /* Torn write: only a prefix reaches the disk.  */
      size_t k = v - 1 <= (int64_t) *n ? v - 1 : *n;
      if (k && at)
	syscall (SYS_pwrite64, fd, buf, k, off);
      else if (k)
	syscall (SYS_write, fd, buf, k);
      sim_event ("!crash write");
      dirty_fd (fd, 0);
      power_off ();
      sim_finish ("CRASHED", 7);
    }
  if ((v = sim_decide (C_IOERR, io_err, 1, 3)))
    {
      errno = v == 1 ? ENOSPC : v == 2 ? EIO : EDQUOT;
      sim_event ("!ioerr write %d %s", errno, fdt[fd].path);
      return -1;
    }
  if (*n > 1 && (v = sim_decide (C_WSHORT, io_wshort, 1, *n - 1)))
    *n = v < (int64_t) *n ? v : *n - 1;
  return 0;
}

ssize_t
write (int fd, const void *buf, size_t n)
{
  if (simnet_is (fd))
    return simnet_write (fd, buf, n, 0, NULL, 0);
  sim_point ();
  if (write_faults (fd, buf, &n, 0, 0))
    return -1;
  if (io_powerloss && fd >= 0 && fd < MAXFD && fdt[fd].faulty)
    dirty_fd (fd, 0);
  return syscall (SYS_write, fd, buf, n);
}

ssize_t
pwrite (int fd, const void *buf, size_t n, off_t off)
{
  sim_point ();
  if (write_faults (fd, buf, &n, off, 1))
    return -1;
  if (io_powerloss && fd >= 0 && fd < MAXFD && fdt[fd].faulty)
    dirty_fd (fd, 0);
  return syscall (SYS_pwrite64, fd, buf, n, off);
}

ssize_t pread64 (int fd, void *b, size_t n, off_t o) { return pread (fd, b, n, o); }
ssize_t pwrite64 (int fd, const void *b, size_t n, off_t o) { return pwrite (fd, b, n, o); }

int
close (int fd)
{
  sim_point ();
  if (simnet_is (fd))
    return simnet_close (fd);
  if (fd >= 0 && fd < MAXFD && fdt[fd].faulty)
    {
      /* (A close that fails has released the descriptor all the same.)  */
      int bad = mutate_path ("close", fdt[fd].path), e = errno;
      fdt[fd].faulty = fdt[fd].fifo = 0;
      if (bad)
	{
	  syscall (SYS_close, fd);
	  errno = e;
	  return -1;
	}
    }
  return syscall (SYS_close, fd);
}

int
fsync (int fd)
{
  sim_point ();
  if (fd >= 0 && fd < MAXFD && fdt[fd].faulty && mutate_path ("fsync", fdt[fd].path))
    return -1;
  dirty_fd (fd, 1);
  return 0;
}

int fdatasync (int fd) { return fsync (fd); }
void sync (void) { }

int
ftruncate (int fd, off_t len)
{
  sim_point ();
  if (fd >= 0 && fd < MAXFD && fdt[fd].faulty && mutate_path ("ftruncate", fdt[fd].path))
    return -1;
  return syscall (SYS_ftruncate, fd, len);
}

int ftruncate64 (int fd, off_t len) { return ftruncate (fd, len); }

int
rename (const char *a, const char *b)
{
  sim_point ();
  if ((faulty_path (a) || faulty_path (b)) && mutate_path ("rename", faulty_path (a) ? a : b))
    return -1;
  return syscall (SYS_rename, a, b);
}

int
unlink (const char *a)
{
  sim_point ();
  if (faulty_path (a) && mutate_path ("unlink", a))
    return -1;
  return syscall (SYS_unlink, a);
}

int
mkdir (const char *a, mode_t m)
{
  sim_point ();
  if (faulty_path (a) && mutate_path ("mkdir", a))
    return -1;
  return syscall (SYS_mkdir, a, m);
}

int
link (const char *a, const char *b)
{
  sim_point ();
  if (faulty_path (a) && faulty_path (b) && mutate_path ("link", b))
    return -1;
  return syscall (SYS_link, a, b);
}

/* Directories being read.  The entries are answered in the order of their names,
   because that of the host is not repeatable.  */
#define MAXDIRS 16
#define MAXENTS 64
static struct { DIR *dir; char path[200]; int n, at; struct dirent ents[MAXENTS]; } dirs[MAXDIRS];

static int
by_name (const void *a, const void *b)
{
  return strcmp (((const struct dirent *) a)->d_name, ((const struct dirent *) b)->d_name);
}

static struct dirent *
real_readdir (DIR *d)
{
  static struct dirent *(*real) (DIR *);
  if (!real)
    real = (struct dirent *(*) (DIR *)) dlsym (RTLD_NEXT, "readdir");
  return real (d);
}

DIR *
opendir (const char *a)
{
  static DIR *(*real) (const char *);
  struct dirent *e;
  DIR *d;
  int i;
  if (!real)
    real = (DIR *(*) (const char *)) dlsym (RTLD_NEXT, "opendir");
  sim_point ();
  if (faulty_path (a) && mutate_path ("opendir", a))
    return NULL;
  d = real (a);
  for (i = 0; d && faulty_path (a) && strlen (a) < sizeof dirs[0].path && i < MAXDIRS; i++)
    if (!dirs[i].dir)
      {
	dirs[i].dir = d;
	dirs[i].n = dirs[i].at = 0;
	strcpy (dirs[i].path, a);
	while (dirs[i].n < MAXENTS && (e = real_readdir (d)))
	  dirs[i].ents[dirs[i].n++] = *e;
	qsort (dirs[i].ents, dirs[i].n, sizeof *e, by_name);
	break;
      }
  return d;
}

int
closedir (DIR *d)
{
  static int (*real) (DIR *);
  int i;
  if (!real)
    real = (int (*) (DIR *)) dlsym (RTLD_NEXT, "closedir");
  for (i = 0; i < MAXDIRS; i++)
    if (dirs[i].dir == d)
      dirs[i].dir = NULL;
  return real (d);
}

struct dirent *
readdir (DIR *d)
{
  int i;
  for (i = 0; i < MAXDIRS; i++)
    if (dirs[i].dir == d)
      {
	if (mutate_path ("readdir", dirs[i].path))
	  return NULL;
	return dirs[i].at < dirs[i].n ? &dirs[i].ents[dirs[i].at++] : NULL;
      }
  return real_readdir (d);
}

struct dirent64 *readdir64 (DIR *d) { return (struct dirent64 *) readdir (d); }

int
rmdir (const char *a)
{
  sim_point ();
  if (faulty_path (a) && mutate_path ("rmdir", a))
    return -1;
  return syscall (SYS_rmdir, a);
}

/* A system call takes a little time, and sometimes a lot of it.  */
static void
slow_call (void)
{
  sim_advance (500 + sim_decide (C_NETDELAY, 100000, 1, 300) * 1000);
  sim_point ();
}

int
fcntl (int fd, int cmd, ...)
{
  va_list ap;
  long arg;
  va_start (ap, cmd);
  arg = va_arg (ap, long);
  va_end (ap);
  if (simnet_is (fd))
    return simnet_fcntl (fd, cmd, arg);
  /* No asynchronous notification ever comes from the outside.  */
  if (cmd == F_SETOWN)
    return 0;
  if (cmd == F_SETFL)
    {
      if (nfifo)
	slow_call ();
      if (fd >= 0 && fd < MAXFD)
	fdt[fd].async = (arg & O_ASYNC) != 0;
      arg &= ~O_ASYNC;
    }
  return syscall (SYS_fcntl, fd, cmd, arg);
}

int fcntl64 (int fd, int cmd, ...) { va_list ap; long arg; va_start (ap, cmd); arg = va_arg (ap, long); va_end (ap); return fcntl (fd, cmd, arg); }

int
poll (struct pollfd *p, nfds_t n, int timeout)
{
  int64_t end = timeout < 0 ? INT64_MAX : sim_now + timeout * (int64_t) 1000000;
  sim_advance (500);
  for (;;)
    {
      int cnt = 0;
      nfds_t i;
      if (sim_point ())
	{
	  errno = EINTR;
	  return -1;
	}
      for (i = 0; i < n; i++)
	{
	  p[i].revents = 0;
	  if (p[i].fd < 0)
	    continue;
	  if (simnet_is (p[i].fd))
	    p[i].revents = simnet_poll (p[i].fd, p[i].events);
	  else
	    {
	      struct pollfd q = p[i];
	      struct timespec ts = { 0, 0 };
	      q.revents = 0;
	      syscall (SYS_ppoll, &q, 1, &ts, NULL, 8);
	      p[i].revents = q.revents;
	    }
	  if (p[i].revents)
	    cnt++;
	}
      /* Things may happen just after the system has looked.  */
      if (nfifo)
	{
	  int e = errno;
	  slow_call ();
	  errno = e;
	}
      if (cnt || timeout == 0)
	return cnt;
      if (sim_now >= end)
	return 0;
      if (!sim_idle_until (end))
	{
	  sim_event ("!deadlock poll");
	  sim_finish ("DEADLOCK", 3);
	}
    }
}

/* ---- fifos: their other end is a peer that writes at given times --------- */

static struct { char path[80]; int fd; long fed; } fifos[8];

static void
fifo_opened (int fd)
{
  int i;
  for (i = 0; i < nfifo; i++)
    if (!strcmp (fifos[i].path, fdt[fd].path))
      fdt[fd].fifo = i + 1;
}

static void fifo_sigio (void *arg, long sig) { sim_raise (SIGIO); }

/* The state of a fifo changed: tell those who asked for it, at once or a little later.  */
static void
fifo_notify (int i)
{
  int fd;
  for (fd = 0; fd < MAXFD; fd++)
    if (fdt[fd].fifo == i + 1 && fdt[fd].async)
      {
	int64_t d = sim_decide (C_NETDELAY, 300000, 1, 2000);
	if (d)
	  sim_at (sim_now + d * 1000, fifo_sigio, NULL, 0);
	else
	  sim_raise (SIGIO);
      }
}

static int
fifo_create (const char *path)
{
  int fd;
  if (nfifo >= 8 || syscall (SYS_mknodat, AT_FDCWD, path, S_IFIFO | 0600, 0) < 0)
    return -1;
  fd = syscall (SYS_openat, AT_FDCWD, path, O_RDWR | O_NONBLOCK, 0);
  fifos[nfifo].fd = syscall (SYS_fcntl, fd, F_DUPFD, 910);
  syscall (SYS_close, fd);
  snprintf (fifos[nfifo].path, sizeof fifos[nfifo].path, "%s", data_part (path));
  return nfifo++;
}

static void
fifo_feed (void *arg, long n)
{
  long i = (long) arg, k;
  if (fifos[i].fd < 0)
    return;
  for (k = 0; k < n; k++, fifos[i].fed++)
    {
      long q = fifos[i].fed;
      char c = 35 + (q * 31 + q / 83 + i * 17) % 88;
      if (syscall (SYS_write, fifos[i].fd, &c, 1) != 1)
	break;
    }
  sim_event ("!feed %ld %ld", i, fifos[i].fed);
  fifo_notify (i);
}

static void
fifo_hangup (void *arg, long n)
{
  long i = (long) arg;
  if (fifos[i].fd < 0)
    return;
  syscall (SYS_close, fifos[i].fd);
  fifos[i].fd = -1;
  sim_event ("!hangup %ld", i);
  fifo_notify (i);
}

/* A read that finds nothing stops the whole process.  */
static void
fifo_read (int fd)
{
  int told = 0;
  if (syscall (SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK)
    return;
  for (;;)
    {
      struct pollfd q = { fd, POLLIN, 0 };
      struct timespec ts = { 0, 0 };
      syscall (SYS_ppoll, &q, 1, &ts, NULL, 8);
      if (q.revents)
	return;
      if (!told++)
	sim_event ("!blocked %d", fdt[fd].fifo - 1);
      if (!sim_idle_until (INT64_MAX))
	{
	  sim_event ("!deadlock read");
	  sim_finish ("DEADLOCK", 3);
	}
    }
}

static int cb_fifo (const char *path) { return fifo_create (path); }
static void cb_feed (int i, long n, long us) { sim_at (sim_now + us * 1000, fifo_feed, (void *) (long) i, n); }
static void cb_hangup (int i, long us) { sim_at (sim_now + us * 1000, fifo_hangup, (void *) (long) i, 0); }

int __poll_chk (struct pollfd *p, nfds_t n, int t, size_t l) { return poll (p, n, t); }

/* ---- memory: fixed addresses ------------------------------------------- */

static char *map_next = (char *) 0x100000000000;

void *
mmap (void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
  void *r;
  size_t l = (len + 0xffff) & ~(size_t) 0xffff;
  if (!addr && !(flags & MAP_FIXED))
    {
      r = (void *) syscall (SYS_mmap, map_next, len, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
      if (r != MAP_FAILED)
	{
	  map_next += l + 0x10000;
	  return r;
	}
      return r;
    }
  return (void *) syscall (SYS_mmap, addr, len, prot, flags, fd, off);
}

void *mmap64 (void *a, size_t l, int p, int f, int fd, off_t o) { return mmap (a, l, p, f, fd, o); }

/* ---- processes --------------------------------------------------------- */

pid_t
fork (void)
{
  errno = EAGAIN;
  return -1;
}

int
system (const char *cmd)
{
  return -1;
}

pid_t
waitpid (pid_t pid, int *st, int opt)
{
  errno = ECHILD;
  return -1;
}

/* ---- callouts available to workloads ----------------------------------- */

static void cb_log (const char *s) { sim_event ("%s", s); }
static void cb_begin (void) { sim_begin (); }
static void cb_done (const char *s) { sim_event ("!done %s", s); sim_finish ("DONE", 0); }
static long cb_now (void) { return sim_now / 1000; }
static long cb_nowns (void) { return sim_now; }
static void cb_gc (int kind) { forced_gc = kind; }
static void raise_cb (void *arg, long sig) { sim_raise (sig); }
static void cb_sigat (int sig, long us) { sim_at (sim_now + us * 1000, raise_cb, NULL, sig); }
static void cb_stall (long us) { sim_advance (us * 1000); }
static void cb_crash (void) { sim_event ("!crash callout"); sim_finish ("CRASHED", 7); }
static void cb_check (void) { _gst_check_oop_table (); }
static long cb_knob (const char *s) { return sim_knob (s, 0); }
static void cb_walljump (long secs) { wall_off += secs * 1000000000LL; fired[C_WALL]++; }
static void cb_arm (int on) { sim_armed = on; }
static void cb_hold (int n) { sim_hold = total_sp + n; }
/* Log an operation and hold preemption until it is done.  A preemption that is due already comes first: answer
   false, and the caller tries again after it.  */
static int
cb_mark (const char *s)
{
  static int tries;
  if (sim_except_flag && tries++ < 50)
    return 0;
  tries = 0;
  sim_event ("%s", s);
  sim_hold = total_sp + 12;
  return 1;
}

void simnet_init (void);

static void
at_exit (void)
{
  sim_finish ("EXIT", 0);
}

static void
fatal_signal (int sig)
{
  hprintf ("X fatal signal %d\n", sig);
  sim_event ("!fatal %d", sig);
  sim_finish ("FATALSIG", 6);
}

int
main (int argc, char **argv)
{
  const char *image = NULL, *kernel = NULL, *planf = NULL, *out = NULL, *save = NULL;
  int i, flags, rc;
  int pers = personality (0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv ("SIM_REEXEC"))
    {
      static char *env[] = { "SIM_REEXEC=1", "TZ=UTC", "LANG=C", "HOME=/nonexistent",
	"PATH=/bin:/usr/bin", "TERM=dumb", NULL };
      personality (pers | ADDR_NO_RANDOMIZE);
      execve ("/proc/self/exe", argv, env);
    }
  for (i = 1; i < argc && argv[i][0] == '-'; i += 2)
    {
      if (!strcmp (argv[i], "-I")) image = argv[i + 1];
      else if (!strcmp (argv[i], "-k")) kernel = argv[i + 1];
      else if (!strcmp (argv[i], "-p")) planf = argv[i + 1];
      else if (!strcmp (argv[i], "-o")) out = argv[i + 1];
      else if (!strcmp (argv[i], "-S")) save = argv[i + 1];
      else break;
    }
  if (out)
    {
      int fd = real_open (out, O_RDWR | O_CREAT | O_TRUNC, 0644);
      hist_fd = syscall (SYS_fcntl, fd, F_DUPFD, 900);
      syscall (SYS_close, fd);
    }
  if (planf)
    load_plan (planf);
  sp_ns = sim_knob ("sp_ns", 1000);
  trace_switch = sim_knob ("trace", 0);
  yield_gap = sim_knob ("yield_gap", 0);
  stall_gap = sim_knob ("stall_gap", 0);
  stall_max = sim_knob ("stall_max", 20000000);
  gc_gap = sim_knob ("gc_gap", 0);
  gc_kinds = sim_knob ("gc_kinds", 30);
  sig_gap = sim_knob ("sig_gap", 0);
  max_sp = sim_knob ("max_sp", 30000000);
  max_vtime = sim_knob ("max_vtime_s", 100000) * 1000000000;
  io_rshort = sim_knob ("rshort_ppm", 0);
  io_wshort = sim_knob ("wshort_ppm", 0);
  io_eintr = sim_knob ("eintr_ppm", 0);
  io_err = sim_knob ("ioerr_ppm", 0);
  io_crash = sim_knob ("crash_ppm", 0);
  io_powerloss = sim_knob ("powerloss", 0);
  io_openlog = sim_knob ("openlog", 0);
  fdt[1].faulty = sim_knob ("stdout", 0);	/* interrupted and short writes on the standard output */
  {
    char nm[8];
    int k;
    for (k = 0; k < 8; k++)
      {
	snprintf (nm, sizeof nm, "sig%d", k);
	if (sim_knob (nm, 0))
	  sig_choices[n_sig_choices++] = sim_knob (nm, 0);
      }
  }
  sigemptyset (&sigmask_now);
  atexit (at_exit);
  simnet_init ();

  gst_set_executable_path (argv[0]);
  gst_set_var (GST_VERBOSITY, 1);
  if (sim_knob ("regression", 0))
    gst_set_var (GST_REGRESSION_TESTING, 1);
  flags = GST_NO_TTY | GST_IGNORE_USER_FILES;
  if (!image || !save)
    flags |= GST_IGNORE_BAD_IMAGE_PATH;
  if (save && !strcmp (save, image))
    flags |= GST_REBUILD_IMAGE | GST_IGNORE_BAD_IMAGE_PATH;
  /* (processes of a saved image run while it is being loaded)  */
  _gst_define_cfunc ("simLog", cb_log);
  _gst_define_cfunc ("simBegin", cb_begin);
  _gst_define_cfunc ("simDone", cb_done);
  _gst_define_cfunc ("simNow", cb_now);
  _gst_define_cfunc ("simNowNs", cb_nowns);
  _gst_define_cfunc ("simGC", cb_gc);
  _gst_define_cfunc ("simSigAt", cb_sigat);
  _gst_define_cfunc ("simStall", cb_stall);
  _gst_define_cfunc ("simCrash", cb_crash);
  _gst_define_cfunc ("simCheck", cb_check);
  _gst_define_cfunc ("simKnob", cb_knob);
  _gst_define_cfunc ("simWallJump", cb_walljump);
  _gst_define_cfunc ("simFifo", cb_fifo);
  _gst_define_cfunc ("simFeed", cb_feed);
  _gst_define_cfunc ("simHangup", cb_hangup);
  _gst_define_cfunc ("simArm", cb_arm);
  _gst_define_cfunc ("simHold", cb_hold);
  _gst_define_cfunc ("simMark", cb_mark);
  rc = gst_initialize (kernel, image, flags);
  if (rc)
    {
      hprintf ("X gst_initialize failed %d\n", rc);
      sim_finish ("INITFAIL", 8);
    }
  (void) fatal_signal;
  for (; i < argc; i++)
    if (!gst_process_file (argv[i], GST_DIR_ABS))
      fprintf (stderr, "sim: cannot open %s: %s\n", argv[i], strerror (errno));
  if (save && strcmp (save, image))
    {
      if (!_gst_save_to_file (save))
	{
	  fprintf (stderr, "sim: cannot save %s\n", save);
	  sim_finish ("SAVEFAIL", 9);
	}
    }
  gst_invoke_hook (GST_ABOUT_TO_QUIT);
  sim_finish ("QUIT", 0);
}
